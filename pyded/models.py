"""Assumed contracts of Python builtins, numpy, scipy.sparse, sparse, itertools (the trusted base of the proofs).

Each model states the mathematical value of the call over exact integers / complex numbers.
"""
import ast

from .expr import *
from .values import *
from .interp import RaiseSig, PathDead, BreakSig, inv, Frame

USED = set()


# ---------------------------------------------------------------- helpers
def mkarr(shape, fn, sort, like=None, **attrs):
    return Arr(shape, fn, sort, attrs=attrs)


def out(it, arr, *src):
    sp = next((spflag(s) for s in src if spflag(s)), False)
    return it.nd(arr, sparse=sp)


def is_arr(v):
    return isinstance(v, (Nd, Arr))


def csort(*arrs):
    ss = [a.sort for a in arrs]
    return "cx" if "cx" in ss else "int"


def same(it, a, b):
    return it.shape_eq((a,), (b,))


def need_eq(it, a, b, what):
    """Dimensions must agree: numpy raises ValueError otherwise."""
    a, b = D(a), D(b)
    if isinstance(a, int) and isinstance(b, int):
        if a != b:
            raise RaiseSig("ValueError")
        return
    e = eq(lift(a), lift(b))
    if it.ctx.valid(e):
        return
    if it.branch(e):
        return
    raise RaiseSig("ValueError")


def shape_of(it, v):
    """A shape argument as a list of dimensions."""
    if is_scalar(v):
        return [D(v)]
    return [D(x) for x in it.concrete_items(v)]


def axes_of(it, v):
    if isinstance(v, int):
        return [v]
    return [x for x in it.concrete_items(v)]


def prod(ds):
    r = 1
    for d in ds:
        r = r * d if isinstance(r, int) and isinstance(d, int) else D(mul(lift(r), lift(d)))
    return r


def absval(x):
    x = lift(x)
    if x.sort == "int":
        c = const_of(x)
        if c is not None:
            return ic(abs(c))
        return ite(le(ic(0), x), x, neg(x))
    c = const_of(x)
    if c is not None and c[1] == 0:
        return cc(abs(c[0]))
    if x.op == "app" and x.args[0] in ("real:abs",):
        return x
    return app("real:abs", x, sort="cx")


def is_real(x):
    x = lift(x)
    return x.sort in ("int", "bool") or conj(x) is x


def re_part(x):
    x = lift(x)
    if x.sort != "cx":
        return x
    return mul(cc(Fraction(1, 2)), add(x, conj(x)))


def im_part(x):
    x = lift(x)
    if x.sort != "cx":
        return lift(0)
    return mul(cc((Fraction(0), Fraction(-1, 2))), sub(x, conj(x)))


# ---------------------------------------------------------------- bags
# A one-dimensional array known only as a family of numbers (selected by a mask, or blocks of uneven sizes in a row).
# parts: [(binders, condition, value)]; bags over the same domain have the same binders and conditions.
def bag(it, parts):
    """parts: list of (list of ranges, cond(*vs), val(*vs))"""
    out, key = [], []
    for rs, cond, val in parts:
        vs = [fresh("k") for _ in rs]
        rs = [r(*vs[:j]) if callable(r) else r for j, r in enumerate(rs)]
        c = lift(cond(*vs))
        b = c
        for v, h in reversed(list(zip(vs, rs))):
            b = lam(v, lift(h), b)
        key.append(b)
        out.append((vs, rs, c, val))
    key = tuple(key)
    dom = it.bagdoms.setdefault(key, [(vs, rs, c) for vs, rs, c, _ in out])
    return Sp("bag", dom=dom, vals=[lift(val(*vs)) for (vs, rs, c), (_, _, _, val) in zip(dom, out)])


def is_bag(v):
    return isinstance(v, Sp) and v.name == "bag"


def bag_map(it, f, *xs):
    dom = [x for x in xs if is_bag(x)][0].dom
    for x in xs:
        if is_bag(x) and x.dom is not dom:
            raise Unsupported("element-wise operation on differently selected arrays")
        if not is_bag(x) and not is_scalar(x):
            raise Unsupported("element-wise operation of a selected array and %r" % (x,))
    return Sp("bag", dom=dom, vals=[lift(f(*[x.vals[j] if is_bag(x) else x for x in xs])) for j in range(len(dom))])


def bag_select(it, x, m):
    """x[m]"""
    if x.dom is not m.dom:
        raise Unsupported("mask of another array")
    parts = []
    for (vs, rs, c), v, mv in zip(x.dom, x.vals, m.vals):
        if lift(mv).sort != "bool":
            raise Unsupported("selection by numbers")
        names = [q.args[0] for q in vs]
        rr = [lambda *i, h=h, names=names: subst(lift(h), dict(zip(names, i))) for h in rs]
        parts.append((rr, lambda *i, c=c, mv=mv, names=names: and_(subst(c, dict(zip(names, i))), subst(lift(mv), dict(zip(names, i)))),
                      lambda *i, v=v, names=names: subst(v, dict(zip(names, i)))))
    return bag(it, parts)


def bag_sum(it, x):
    tot = None
    for (vs, rs, c), v in zip(x.dom, x.vals):
        v = lift(v, "int") if v.sort == "bool" else v
        b = ite(c, v, lift(0, v.sort))
        for q, h in reversed(list(zip(vs, rs))):
            b = sum_(q, lift(h), b)
        tot = b if tot is None else add(tot, b)
    return D(tot)


def concat_uneven(it, s):
    """np.concatenate of a sequence of one-dimensional arrays."""
    parts = []

    def go(s, pre, conds):
        for p in s.parts:
            if isinstance(p, Items):
                for x in p.vals:
                    one(lambda *i, x=x: x, pre, conds)
            elif isinstance(p, Sub):
                one(p.fn, pre + [p.n], conds)
            else:
                raise Unsupported("concatenation of %r" % (p,))

    def one(get, pre, conds):
        vs = [fresh("k") for _ in pre]
        a = it.arr(get(*vs))
        if a.ndim != 1:
            raise Unsupported("concatenation of uneven matrices")
        parts.append((pre + [lambda *i: lift(it.arr(get(*i)).shape[0])], lambda *i: TRUE, lambda *i: lift(it.arr(get(*i[:-1])).fn(i[-1]))))
    go(s, [], [])
    return bag(it, parts)


def elementwise(it, v, f, sort=None):
    if is_bag(v):
        return bag_map(it, f, v)
    if is_scalar(v):
        return f(lift(v))
    a = it.arr(v)
    return out(it, Arr(a.shape, lambda *i: f(lift(a.fn(*i))), sort or a.sort), v)


def dtype_sort(it, dt, default="int"):
    if dt is None:
        return default
    n = dt.name if isinstance(dt, Builtin) else str(dt)
    if "complex" in n:
        return "cx"
    if "int" in n or "bool" in n:
        return "int"
    if "float" in n:
        return "cx"
    raise Unsupported("dtype %s" % n)


def fresh_name_for(base):
    return fresh_name(base)


# ---------------------------------------------------------------- reshape
def reshape(it, v, shape, order="C"):
    a = it.arr(v)
    shape = list(shape)
    if order == "F":
        t = transpose(it, a, list(range(a.ndim))[::-1])
        r = it.arr(reshape(it, t, shape[::-1]))
        return out(it, transpose(it, r, list(range(r.ndim))[::-1]), v)
    if -1 in shape:
        j = shape.index(-1)
        rest = prod([s for q, s in enumerate(shape) if q != j])
        from .expr import _split
        tot = prod(a.shape)
        q = D(div(lift(tot), lift(rest)))
        if isinstance(q, E) and q.op == "div":
            q2, r = it.ctx.divmod(lift(tot), lift(rest))
            q = D(q2)
        shape[j] = q
    src, dst = list(a.shape), list(shape)
    groups = []
    i = j = 0
    ok = True
    while i < len(src) or j < len(dst):
        gi, gj = [], []
        ps = pd = 1
        if i < len(src):
            gi.append(i)
            ps = src[i]
            i += 1
        if j < len(dst):
            gj.append(j)
            pd = dst[j]
            j += 1
        guard = 0
        while not same(it, ps, pd):
            guard += 1
            ls = known_less(it, ps, pd)
            if ls is True and i < len(src):
                gi.append(i)
                ps = prod([ps, src[i]])
                i += 1
            elif ls is False and j < len(dst):
                gj.append(j)
                pd = prod([pd, dst[j]])
                j += 1
            elif ls is None and i < len(src) and divides(ps, pd):
                gi.append(i)
                ps = prod([ps, src[i]])
                i += 1
            elif ls is None and j < len(dst) and divides(pd, ps):
                gj.append(j)
                pd = prod([pd, dst[j]])
                j += 1
            elif i < len(src) and j >= len(dst):
                gi.append(i)
                ps = prod([ps, src[i]])
                i += 1
            elif j < len(dst) and i >= len(src):
                gj.append(j)
                pd = prod([pd, dst[j]])
                j += 1
            else:
                ok = False
                break
            if guard > 12:
                ok = False
                break
        if not ok:
            break
        groups.append((gi, gj))
    if not ok:
        need_eq(it, prod(src), prod(dst), "reshape")
        groups = [(list(range(len(src))), list(range(len(dst))))]

    def fn(*idx):
        res = [None] * len(src)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                res[gi[0]] = lift(idx[gj[0]])
                continue
            flat = ic(0)
            for q in gj:
                flat = add(mul(flat, lift(dst[q])), lift(idx[q]))
            for q in reversed(gi[1:]):
                res[q] = mod(flat, lift(src[q]))
                flat = div(flat, lift(src[q]))
            if gi:
                res[gi[0]] = flat
        return a.fn(*[x if x is not None else ic(0) for x in res])
    return out(it, Arr(dst, fn, a.sort, attrs=a.attrs), v)


def divides(p, q):
    from .expr import _split
    a, r = _split(lift(q), lift(p))
    return r is not None and const_of(r) == 0


def known_less(it, p, q):
    if isinstance(p, int) and isinstance(q, int):
        return p < q
    return None


def transpose(it, a, axes):
    axes = [x % a.ndim for x in axes] if a.ndim else []
    shape = [a.shape[x] for x in axes]

    def fn(*i):
        r = [None] * len(axes)
        for j, x in enumerate(axes):
            r[x] = i[j]
        return a.fn(*r)
    return Arr(shape, fn, a.sort, attrs=a.attrs)


# ---------------------------------------------------------------- linear algebra
def matmul(it, x, y):
    a, b = it.arr(x), it.arr(y)
    if a.ndim == 0 or b.ndim == 0:
        raise RaiseSig("ValueError")
    pa = a.ndim == 1
    pb = b.ndim == 1
    if pa:
        a0 = a
        a = Arr((1,) + a.shape, lambda i, j: a0.fn(j), a0.sort)
    if pb:
        b0 = b
        b = Arr(b.shape + (1,), lambda i, j: b0.fn(i), b0.sort)
    need_eq(it, a.shape[-1], b.shape[-2], "matmul")
    n = a.shape[-1]
    ba, bb = a.shape[:-2], b.shape[:-2]
    fa, fb, bshape = it.broadcast(Arr(ba, lambda *i: ic(0), "int"), Arr(bb, lambda *i: ic(0), "int")) if (ba or bb) else (None, None, ())
    na, nb_ = len(ba), len(bb)

    def pick(idx, sh):
        idx = idx[len(idx) - len(sh):]
        return [ic(0) if s == 1 and bs != 1 else i for i, s, bs in zip(idx, sh, bshape[len(bshape) - len(sh):])]
    sort = csort(a, b)

    def fn(*i):
        lead, p, q = list(i[:-2]), i[-2], i[-1]
        k = fresh("k")
        return sum_(k, lift(n), mul(lift(a.fn(*(pick(lead, ba) + [p, k])), sort), lift(b.fn(*(pick(lead, bb) + [k, q])), sort)))
    shape = tuple(bshape) + (a.shape[-2], b.shape[-1])
    r = Arr(shape, fn, sort)
    if pa and pb:
        return D(fn(ic(0), ic(0)))
    if pa:
        r = Arr(shape[:-2] + shape[-1:], lambda *i: fn(*(i[:-1] + (ic(0), i[-1]))), sort)
    elif pb:
        r = Arr(shape[:-1], lambda *i: fn(*(i + (ic(0),))), sort)
    return out(it, r, x, y)


def dot(it, x, y):
    if is_scalar(x) or is_scalar(y):
        return it.binop(ast.Mult(), x, y)
    a, b = it.arr(x), it.arr(y)
    if a.ndim <= 2 and b.ndim <= 2:
        if a.ndim == 0 or b.ndim == 0:
            return it.binop(ast.Mult(), x, y)
        return matmul(it, x, y)
    raise Unsupported("dot of arrays of rank > 2")


def kron(it, x, y):
    a, b = it.arr(x), it.arr(y)
    n = max(a.ndim, b.ndim)
    sa = (1,) * (n - a.ndim) + a.shape
    sb = (1,) * (n - b.ndim) + b.shape
    shape = [prod([p, q]) for p, q in zip(sa, sb)]
    sort = csort(a, b)

    def fn(*i):
        ia = [div(lift(k), lift(q)) if q != 1 else lift(k) for k, q in zip(i, sb)]
        ib = [mod(lift(k), lift(q)) if q != 1 else ic(0) for k, q in zip(i, sb)]
        ia = [ic(0) if p == 1 else k for k, p in zip(ia, sa)]
        return mul(lift(a.fn(*ia[n - a.ndim:]), sort), lift(b.fn(*ib[n - b.ndim:]), sort))
    return out(it, Arr(shape, fn, sort), x, y)


def einsum(it, args, kwargs):
    spec = args[0]
    ops = [it.arr(x) for x in args[1:]]
    if not isinstance(spec, str):
        raise Unsupported("einsum specification")
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        letters = lhs.replace(",", "")
        rhs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = lhs.split(",")
    if "." in spec or len(ins) != len(ops):
        raise Unsupported("einsum specification " + spec)
    dims = {}
    for s, a in zip(ins, ops):
        if len(s) != a.ndim:
            raise RaiseSig("ValueError")
        for c, d in zip(s, a.shape):
            if c in dims:
                if d == 1 and dims[c] != 1 or dims[c] == 1 and d != 1:
                    raise Unsupported("einsum broadcasting")
                need_eq(it, dims[c], d, "einsum")
            else:
                dims[c] = d
    summed = [c for c in dims if c not in rhs]
    sort = csort(*ops)
    if dtype_sort(it, kwargs.get("dtype"), sort) == "cx":
        sort = "cx"

    def fn(*i):
        m = dict(zip(rhs, [lift(x) for x in i]))
        vs = [(c, fresh("k")) for c in summed]
        m.update(vs)
        body = mul(*[lift(a.fn(*[m[c] for c in s]), sort) for s, a in zip(ins, ops)])
        for c, v in vs:
            body = sum_(v, lift(dims[c]), body)
        return body
    if not rhs:
        return D(fn())
    return it.nd(Arr([dims[c] for c in rhs], fn, sort))


def sum_axes(it, v, axes, sort=None):
    a = it.arr(v)
    if axes is None:
        axes = list(range(a.ndim))
    axes = [x % a.ndim for x in axes]
    keep = [x for x in range(a.ndim) if x not in axes]
    s = sort or ("int" if a.sort == "bool" else a.sort)

    def fn(*i):
        idx = [None] * a.ndim
        for x, j in zip(keep, i):
            idx[x] = lift(j)
        vs = []
        for x in axes:
            k = fresh("k")
            idx[x] = k
            vs.append((k, a.shape[x]))
        b = lift(a.fn(*idx), s)
        for k, n in reversed(vs):
            b = sum_(k, lift(n), b)
        return b
    if not keep:
        return D(fn())
    return out(it, Arr([a.shape[x] for x in keep], fn, s), v)


def quant(it, v, axes_none, kind):
    a = it.arr(v)
    if a.ndim == 0:
        t = it.truth(a.fn())
        return t if isinstance(t, bool) else t
    ks = [fresh("k") for _ in a.shape]
    c = it.ctx
    b = lift(a.fn(*ks))
    if b.sort != "bool":
        b = ne(b, lift(0, b.sort))
    for k, n in reversed(list(zip(ks, a.shape))):
        b = (forall if kind == "all" else exists)(k, lift(n), b)
    return True if b is TRUE else False if b is FALSE else b


def trace(it, v, axis1=0, axis2=1, dtype=None):
    a = it.arr(v)
    axis1 %= a.ndim
    axis2 %= a.ndim
    n1, n2 = a.shape[axis1], a.shape[axis2]
    if same(it, n1, n2):
        n = n1
    else:
        n = D(ite(le(lift(n1), lift(n2)), lift(n1), lift(n2)))
    rest = [x for x in range(a.ndim) if x not in (axis1, axis2)]

    def fn(*i):
        idx = [None] * a.ndim
        for x, j in zip(rest, i):
            idx[x] = lift(j)
        k = fresh("k")
        idx[axis1] = idx[axis2] = k
        return sum_(k, lift(n), lift(a.fn(*idx)))
    if not rest:
        return D(fn())
    return out(it, Arr([a.shape[x] for x in rest], fn, a.sort), v)


def tensordot(it, x, y, axes):
    a, b = it.arr(x), it.arr(y)
    ax, bx = axes
    ax = [q % a.ndim for q in axes_of(it, ax)]
    bx = [q % b.ndim for q in axes_of(it, bx)]
    for p, q in zip(ax, bx):
        need_eq(it, a.shape[p], b.shape[q], "tensordot")
    ra = [q for q in range(a.ndim) if q not in ax]
    rb = [q for q in range(b.ndim) if q not in bx]
    sort = csort(a, b)

    def fn(*i):
        ia, ib = [None] * a.ndim, [None] * b.ndim
        for q, j in zip(ra, i):
            ia[q] = lift(j)
        for q, j in zip(rb, i[len(ra):]):
            ib[q] = lift(j)
        vs = []
        for p, q in zip(ax, bx):
            k = fresh("k")
            ia[p] = ib[q] = k
            vs.append((k, a.shape[p]))
        r = mul(lift(a.fn(*ia), sort), lift(b.fn(*ib), sort))
        for k, n in reversed(vs):
            r = sum_(k, lift(n), r)
        return r
    return out(it, Arr([a.shape[q] for q in ra] + [b.shape[q] for q in rb], fn, sort), x, y)


def concat(it, arrs, axis):
    arrs = [it.arr(x) for x in arrs]
    axis %= arrs[0].ndim
    for a in arrs[1:]:
        if a.ndim != arrs[0].ndim:
            raise RaiseSig("ValueError")
        for q in range(a.ndim):
            if q != axis:
                need_eq(it, a.shape[q], arrs[0].shape[q], "concatenate")
    sort = csort(*arrs)
    offs = [0]
    for a in arrs:
        offs.append(D(add(lift(offs[-1]), lift(a.shape[axis]))))

    def fn(*i):
        x = lift(i[axis])
        val = None
        for a, o in reversed(list(zip(arrs, offs))):
            idx = list(i)
            idx[axis] = sub(x, lift(o))
            e = lambda: lift(a.fn(*idx), sort)
            if a.shape[axis] == 0:
                continue
            if val is None:
                val = e()
            else:
                val = ite(lt(x, add(lift(o), lift(a.shape[axis]))), e(), val)
        return val if val is not None else lift(0, sort)
    shape = list(arrs[0].shape)
    shape[axis] = offs[-1]
    return it.nd(Arr(shape, fn, sort))


def stack(it, seq, axis=0):
    s = it.iter_seq(seq)
    a = it.seq_to_arr(s)
    if axis == 0:
        return a
    axes = list(range(1, a.ndim))
    axes.insert(axis if axis >= 0 else axis + a.ndim, 0)
    return transpose(it, a, axes)


def eye(it, n, m=None, sort="int"):
    m = n if m is None else m
    return it.nd(Arr((n, m), lambda i, j: ite(eq(lift(i), lift(j)), lift(1, sort), lift(0, sort)), sort))


# ---------------------------------------------------------------- eigen-decomposition (assumed contract)
def eigh(it, v, vals_only=False):
    """w real, V unitary, A = V diag(w) V^H for Hermitian A (obligation: A is Hermitian)."""
    a = it.arr(v)
    n = a.shape[0]
    need_eq(it, n, a.shape[1], "eigh")
    key, fvs = canonical_array_key(it, a)
    it.hermitian_obligation(a)
    W, V = "real:eigval<%s>" % key, "eigvec<%s>" % key
    if not any(e[0] == W for e in it.eigs):
        it.eigs.append((W, V, a, n, fvs))
        if it.find_involutions:
            from .nf import nf_zero
            i, j, k = fresh("k"), fresh("k"), fresh("k")
            c = it.ctx.clone()
            c.assume(and_(*[and_(le(ic(0), x), lt(x, lift(n))) for x in (i, j)]))
            sq = sum_(k, lift(n), mul(lift(a.fn(i, k), "cx"), lift(a.fn(k, j), "cx")))
            if nf_zero(c, sub(sq, ite(eq(i, j), lift(1, "cx"), lift(0, "cx"))), it.rules()):
                it.involutions.append(W)
    w = it.nd(Arr((n,), lambda k: app(W, lift(k), *fvs, sort="cx"), "cx", attrs={"eigw": (W, V, a, n)}))
    if vals_only:
        return w
    vv = it.nd(Arr((n, n), lambda p, q: app(V, lift(p), lift(q), *fvs, sort="cx"), "cx"))
    return (w, vv)


def selection(it, m, n):
    """The positions of an axis that a boolean mask selects: sel(0) < sel(1) < .. < sel(count - 1)."""
    if m.ndim != 1:
        raise Unsupported("boolean mask of rank %d" % m.ndim)
    need_eq(it, m.shape[0], n, "mask")
    k = var("~a0")
    e = lift(m.fn(k))
    fv = sorted(x for x in e.fv | lift(n).fv if x != "~a0")
    ren = {x: var("~f%d" % j) for j, x in enumerate(fv)}
    name = "sel<%s:%s>" % (subst(lift(n), ren).key, subst(e, ren).key)
    fvs = [var(x) for x in fv]
    if not any(x[0] == name for x in it.sels):
        it.sels.append((name, lambda k, *f: subst(e, dict(zip(["~a0"] + fv, [lift(k)] + list(f)))),
                        lambda *f: subst(lift(n), dict(zip(fv, f)))))
        l = dict(it.ctx.lemmas)
        l[name] = lambda j, *f: and_(le(ic(0), app(name, j, *f)), lt(app(name, j, *f), subst(lift(n), dict(zip(fv, f)))))
        it.ctx.lemmas = l
    return Arr((count(n, lambda k: lift(m.fn(k))),), lambda j: app(name, lift(j), *fvs), "int")


def selection_rule(it):
    """sum over j < count of f(sel(j)) = sum over k < n of [mask(k)] f(k); sel is injective."""
    from .nf import Term

    def rule(nf, t):
        for g in t.guards:
            if g.op == "eq0":
                p = pdict(g.args[0])
                ms = list(p)
                if len(ms) == 2 and all(len(x) == 1 and x[0].op == "app" for x in ms) and sorted(p.values()) == [-1, 1]:
                    x, y = ms[0][0], ms[1][0]
                    if x.args[0] == y.args[0] and x.args[2:] == y.args[2:] and any(x.args[0] == s[0] for s in it.sels):
                        return [Term(t.c, t.binders, [h for h in t.guards if h is not g] + [eq(x.args[1], y.args[1])], t.atoms)]
        for name, mask, n in it.sels:
            for b in t.binders:
                v = b[0].args[0]
                xs = set()
                for x in t.guards + t.atoms:
                    xs |= {y for y in subterms(x) if y.op == "app" and y.args[0] == name and y.args[1] is b[0]}
                if len(xs) != 1:
                    continue
                s, = xs
                f = s.args[2:]
                z, = [fresh("k")]
                if not (b[1] is count(n(*f), lambda k: mask(k, *f)) or nf.ctx.valid(eq(b[1], count(n(*f), lambda k: mask(k, *f))))):
                    continue
                from .nf import replace
                gs = [replace(x, {s: z}, {}) for x in t.guards]
                at = [replace(x, {s: z}, {}) for x in t.atoms]
                bs = [(q, h) for q, h in t.binders if q is not b[0]]
                if any(v in x.fv for x in gs + at + [h for _, h in bs]):
                    continue
                return [Term(t.c, [(z, n(*f))] + bs, gs + [mask(z, *f)], at)]
        return None
    return rule


def involution_rule(it):
    """A guard on an eigenvalue w of A with A^2 = 1, that is w in {1, -1}: [g(w)] = g(1) (1 + w) / 2 + g(-1) (1 - w) / 2."""
    from .nf import Term, replace

    def rule(nf, t):
        for W in it.involutions:
            for j, g in enumerate(t.guards):
                ws = {y for y in subterms(g) if y.op == "app" and y.args[0] == W}
                if len(ws) != 1:
                    continue
                w, = ws
                at1, atm = [nf.ctx.simp(replace(g, {w: cc(c)}, {})) for c in (1, -1)]
                if not all(x is TRUE or x is FALSE for x in (at1, atm)):
                    continue
                r = Term(t.c, t.binders, t.guards[:j] + t.guards[j + 1:], t.atoms)
                half = (Fraction(1, 2), Fraction(0))
                out = []
                for val, s in ((at1, 1), (atm, -1)):
                    if val is TRUE:
                        out += [r.times(Term(half)), r.times(Term((Fraction(s, 2), Fraction(0)), (), (), (w,)))]
                return out
        return None
    return rule


def canonical_array_key(it, a):
    """A name for the matrix that does not depend on the names of its free variables, and these variables."""
    from .nf import canon
    ks = [var("~a%d" % q) for q in range(a.ndim)]
    c = it.ctx.clone()
    for k, d in zip(ks, a.shape):
        c.assume(and_(le(ic(0), k), lt(k, lift(d))))
    e = canon(c, lift(a.fn(*ks), "cx"), it.rules())
    fv = set(e.fv)
    for d in a.shape:
        fv |= lift(d).fv
    fv = sorted(x for x in fv if not x.startswith("~a"))
    m = {x: var("~f%d" % j) for j, x in enumerate(fv)}
    return "%s:%s" % ("x".join(subst(lift(d), m).key for d in a.shape), subst(e, m).key), [var(x) for x in fv]


def spectral_rule(it):
    """The assumed contract of eigh as rewriting: V unitary, V diag(w) V^H = A, and w >= 0 for A declared psd."""
    from .nf import Term

    def rule(nf, t):
        bound = {v.args[0]: h for v, h in t.binders}
        atoms = t.atoms

        def uses(n, skip):
            return any(n in x.fv for j, x in enumerate(atoms) if j not in skip) or any(n in g.fv for g in t.guards) or \
                any(n in h.fv for _, h in t.binders)

        def drop(n, skip, guards=(), extra=()):
            return Term(t.c, [b for b in t.binders if b[0].args[0] != n], list(t.guards) + list(guards),
                        [x for j, x in enumerate(atoms) if j not in skip] + list(extra))
        # sqrt(x) sqrt(x) = x for x = max(y, 0); max(w, 0) = w for psd matrices
        for j, a in enumerate(atoms):
            if a.op == "app" and a.args[0] == "real:sqrt" and is_nonneg(it, a.args[1]):
                for l in range(j):
                    if atoms[l] is a:
                        return [drop(None, (j, l)).times(x) for x in nf.expand(a.args[1])]
            if a.op == "app" and a.args[0] == "real:pos" and is_nonneg(it, a.args[1]):
                return [drop(None, (j,)).times(x) for x in nf.expand(a.args[1])]
        for W, V, A, n, fvs in it.eigs:
            av = [(j, a) for j, a in enumerate(atoms) if a.op == "app" and a.args[0] == V]
            cv = [(j, a.args[0]) for j, a in enumerate(atoms) if a.op == "conj" and a.args[0].op == "app" and a.args[0].args[0] == V]
            for j, a in av:
                for l, b in cv:
                    p, k, q, m = a.args[1], a.args[2], b.args[1], b.args[2]
                    if a.args[3:] != b.args[3:]:
                        continue
                    sub_ = {v.args[0]: x for v, x in zip(fvs, a.args[3:])}
                    rng = lambda x: x.op == "var" and x.args[0] in bound and \
                        (bound[x.args[0]] is subst(lift(n), sub_) or nf.ctx.valid(eq(bound[x.args[0]], subst(lift(n), sub_))))
                    if k is m and rng(k) and k.args[0] not in p.fv | q.fv:
                        if not uses(k.args[0], (j, l)):
                            return [drop(k.args[0], (j, l), [eq(p, q)])]
                        for z, x in enumerate(atoms):
                            if x.op == "app" and x.args[0] == W and x.args[1] is k and x.args[2:] == a.args[3:] and \
                                    not uses(k.args[0], (j, l, z)):
                                e = subst_free(lift(A.fn(p, q), "cx"), sub_, (p, q), A, fvs)
                                return [drop(k.args[0], (j, l, z)).times(y) for y in nf.expand(e)]
                    if p is q and rng(p) and p.args[0] not in k.fv | m.fv and not uses(p.args[0], (j, l)):
                        return [drop(p.args[0], (j, l), [eq(k, m)])]
        return None
    return rule


def subst_free(e, sub_, idx, A, fvs):
    if all(v is x for v, x in zip(fvs, sub_.values())):
        return e
    i, j = fresh("k"), fresh("k")
    e = subst(lift(A.fn(i, j), "cx"), sub_)
    return subst(e, {i.args[0]: idx[0], j.args[0]: idx[1]})


def is_nonneg(it, x):
    """Known to be a nonnegative real."""
    if x.op == "app" and x.args[0] in ("real:pos", "real:abs", "real:sqrt"):
        return True
    if x.op == "app" and x.args[0].startswith("real:eigval<"):
        return x.args[0][len("real:eigval<"):-1] in it.psd
    return False


# ---------------------------------------------------------------- types
def isinst(it, v, T):
    if isinstance(T, tuple):
        rs = [isinst(it, v, t) for t in T]
        return any(rs)
    if isinstance(T, Cls):
        if isinstance(v, Obj):
            return it.is_subclass(v.cls, T.name)
        if isinstance(v, Opaque) and "cls" in v.attrs:
            return T.name in v.attrs["cls"]
        return False
    n = T.name
    if isinstance(v, Opaque):
        if "isinstance" in v.attrs:
            return n in v.attrs["isinstance"]
        if v.name == "string":
            return n == "str"
        raise Unsupported("isinstance of %r" % (v,))
    if n == "list":
        return isinstance(v, Lst) or isinstance(v, Seq) and v.kind == "list"
    if n == "tuple":
        return isinstance(v, tuple) or isinstance(v, Seq) and v.kind == "tuple"
    if n == "str":
        return isinstance(v, str) or isinstance(v, Seq) and v.kind == "str"
    if n == "int":
        return isinstance(v, (int, bool)) or isinstance(v, E) and v.sort in ("int", "bool")
    if n == "bool":
        return isinstance(v, bool) or isinstance(v, E) and v.sort == "bool"
    if n in ("float", "complex"):
        return isinstance(v, {"float": float, "complex": complex}[n])
    if n == "numpy.ndarray":
        return isinstance(v, Arr) and not v.attrs.get("sparse") or isinstance(v, Nd) and not v.sparse
    if n == "sparse.SparseArray" or n == "sparse.COO":
        return spflag(v) == "COO"
    if n == "type":
        return isinstance(v, Cls)
    if n == "dict":
        return isinstance(v, Sp) and v.name == "dict"
    raise Unsupported("isinstance(_, %s)" % n)


CONSTS = {"numpy.pi": lambda: app("real:pi", sort="cx"), "numpy.inf": lambda: INF}


def inf_cmp(it, t, a, b):
    """inf against a finite number."""
    if a is INF and b is INF:
        return t in ("Eq", "LtE", "GtE")
    if not is_scalar(b if a is INF else a):
        raise Unsupported("comparison with inf")
    return t in ("NotEq",) + (("Gt", "GtE") if a is INF else ("Lt", "LtE"))


INF = Opaque("inf", attrs={"#cmp": inf_cmp})
DTYPES = ("numpy.int", "numpy.complex", "numpy.complex128", "numpy.float64", "numpy.float", "numpy.int64", "numpy.bool_")


def attribute(it, o, name):
    if isinstance(o, (Nd, Arr)):
        a = it.arr(o)
        if name == "shape":
            return tuple(D(s) for s in a.shape)
        if name == "ndim":
            return a.ndim
        if name == "T":
            return view_t(it, o, list(range(a.ndim))[::-1])
        if name == "size":
            return prod(a.shape)
        if name == "real":
            return elementwise(it, o, re_part)
        if name == "imag":
            return elementwise(it, o, im_part)
        if name == "dtype":
            return Opaque("dtype")
        if name in ("data", "row", "col") and isinstance(o, Nd) and o.sparse == "coo":
            # the coordinate form of this matrix: usable only together
            return Opaque("coo " + name, attrs={"#coo": (name, o)})
    if isinstance(o, E) and o.sort == "cx":
        if name == "real":
            return re_part(o)
        if name == "imag":
            return im_part(o)
    return NotImplemented


def view_t(it, o, axes):
    a = it.arr(o)
    if isinstance(o, Nd) and not o.sparse:
        old = o.imap

        def imap(*i):
            r = [None] * len(axes)
            for j, x in enumerate(axes):
                r[x] = lift(i[j])
            return old(*r) if old else r
        return Nd(o.ref, tuple(a.shape[x] for x in axes), imap, sparse=o.sparse)
    return out(it, transpose(it, a, axes), o)


# ---------------------------------------------------------------- lazy builtins (unevaluated arguments)
def lazy_any_all(kind):
    def h(it, e, frame):
        from . import loops
        if len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            v = loops.comprehension(it, e.args[0], frame, "list")
            return call(it, kind, [v], {}, None)
        args = [it.eval(a, frame) for a in e.args]
        return call(it, kind, args, {}, None)
    return h


LAZY = {"any": lazy_any_all("any"), "all": lazy_any_all("all")}


# ---------------------------------------------------------------- the call table
TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def call(it, name, args, kwargs, bound):
    if name in it.externals:
        return it.externals[name](it, name, args, kwargs)
    if name in TABLE:
        USED.add(name)
        it.trusted.add(name)
        if name.startswith("method."):
            return TABLE[name](it, bound, args, kwargs)
        return TABLE[name](it, args, kwargs)
    if name.startswith("projectq."):
        from . import gates
        return gates.call(it, name, args, kwargs)
    if name.startswith("method.") and isinstance(bound, (Nd, Arr)) and ("numpy." + name[7:]) in TABLE:
        it.trusted.add(name)
        return TABLE["numpy." + name[7:]](it, [bound] + list(args), kwargs)
    raise Unsupported("no contract for %s of %r" % (name, bound))


@model("divmod")
def _(it, a, k):
    return (it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1]))


@model("len")
def _(it, a, k):
    v = a[0]
    if isinstance(v, Sp) and v.name == "nonzero" and not isinstance(v.n, int):
        # either there is one (and then a positive number of them), or the number is zero
        k = fresh("k")
        if it.branch(exists(k, lift(v.n), v.nz(k))):
            it.ctx.assume(le(ic(1), v.length))
            return D(v.length)
        return 0
    if isinstance(v, Sp) and hasattr(v, "length"):
        return D(v.length)
    if isinstance(v, Sp) and v.name == "range":
        return v.n
    if isinstance(v, Sp) and v.name == "dict":
        return len(it.heap[v.ref])
    if is_arr(v):
        s = it.arr(v).shape
        if not s:
            raise RaiseSig("TypeError")
        return s[0]
    if isinstance(v, Obj):
        m = it.class_member(v.cls, "__len__")
        if m:
            return it.call(Fn(m[0], None, m[1].mod, m[1], v, "__len__"), [], {})
    if is_scalar(v) or v is None:
        raise RaiseSig("TypeError")
    return it.seq_len(it.seq(v))


@model("range")
def _(it, a, k):
    lo, hi, step = 0, None, 1
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) == 3:
            step = a[2]
    if not isinstance(step, int) or step == 0:
        raise Unsupported("range step")
    lo, hi = D(lo), D(hi)
    if isinstance(lo, int) and isinstance(hi, int):
        n = len(range(lo, hi, step))
    else:
        if step == 1:
            n = sub(lift(hi), lift(lo))
        elif step == -1:
            n = sub(lift(lo), lift(hi))
        else:
            if step < 0:
                raise Unsupported("range step")
            d = sub(lift(hi), lift(lo))
            q, r = it.ctx.divmod(d, ic(step))
            if const_of(r) == 0:
                n = q
            else:
                n = it.ctx.divmod(add(d, ic(step - 1)), ic(step))[0]
        if not it.ctx.valid(le(ic(0), n)):
            n = it.ctx.simp(ite(le(ic(0), n), n, ic(0)))
        n = D(n)
    return Sp("range", lo=lo, hi=hi, step=step, n=n)


@model("enumerate")
def _(it, a, k):
    s = it.iter_seq(a[0])
    n = it.seq_len(s)
    if isinstance(n, int):
        return Seq("list", (Items([(i, it.wrap_item(s, it.seq_get(s, i))) for i in range(n)]),))
    return Seq("list", (Sub(n, lambda i: (D(i), it.wrap_item(s, it.seq_get(s, i)))),))


@model("zip")
def _(it, a, k):
    ss = [it.iter_seq(x) for x in a]
    ns = [it.seq_len(s) for s in ss]
    n = ns[0]
    for m in ns[1:]:
        if not same(it, n, m):
            if isinstance(n, int) and isinstance(m, int):
                n = min(n, m)
            elif it.ctx.valid(le(lift(n), lift(m))):
                pass
            elif it.ctx.valid(le(lift(m), lift(n))):
                n = m
            else:
                n = D(ite(le(lift(n), lift(m)), lift(n), lift(m)))
    f = lambda i: tuple(it.wrap_item(s, it.seq_get(s, i)) for s in ss)
    if isinstance(n, int):
        return Seq("list", (Items([f(i) for i in range(n)]),))
    return Seq("list", (Sub(n, f),))


@model("list")
def _(it, a, k):
    if not a:
        return it.lst()
    return Lst(it.new(Seq("list", plain(it, it.iter_seq(a[0])).parts)))


def plain(it, s):
    if s.kind == "str":
        n = it.seq_len(s)
        if isinstance(n, int):
            return Seq("list", (Items([it.wrap_item(s, it.seq_get(s, i)) for i in range(n)]),))
        return Seq("list", (Sub(n, lambda i: it.wrap_item(s, it.seq_get(s, i))),))
    return s


@model("tuple")
def _(it, a, k):
    if not a:
        return ()
    s = plain(it, it.iter_seq(a[0]))
    n = it.seq_len(s)
    if isinstance(n, int):
        return tuple(it.seq_get(s, i) for i in range(n))
    return Seq("tuple", s.parts)


@model("reversed")
def _(it, a, k):
    s = it.iter_seq(a[0])
    n = it.seq_len(s)
    if isinstance(n, int):
        return Seq("list", (Items([it.seq_get(s, n - 1 - i) for i in range(n)]),))
    return Seq("list", (Sub(n, lambda i: it.seq_get(s, sub(sub(lift(n), ic(1)), lift(i)))),))


@model("iter")
def _(it, a, k):
    """An iterator: the sequence and the number of elements taken."""
    if len(a) != 1:
        raise Unsupported("iter of a function")
    if isinstance(a[0], Sp) and a[0].name == "iterator":
        return a[0]
    s = it.iter_seq(a[0])
    return Sp("iterator", ref=it.new({"pos": 0}), of=s)


@model("next")
def _(it, a, k):
    o = a[0]
    if not (isinstance(o, Sp) and o.name == "iterator"):
        raise Unsupported("next of %r" % (o,))
    d = it.heap[o.ref]
    pos = d["pos"]
    n = it.seq_len(o.of)
    if not it.branch(lt(lift(pos), lift(n))):
        if len(a) > 1:
            return a[1]
        raise RaiseSig("StopIteration")
    it.heap[o.ref] = dict(d, pos=D(add(lift(pos), ic(1))))
    return it.wrap_item(o.of, it.seq_get(o.of, lift(pos)))


@model("int")
def _(it, a, k):
    v = a[0] if a else 0
    if isinstance(v, E) and v.sort == "cx":
        # an integral number, whatever the type it is held in
        for b in range(-1, 3):
            if it.ctx.valid(eq(v, lift(b, "cx"))):
                return b
        m = [b for b in (0, 1) if not it.ctx.valid(not_(eq(v, lift(b, "cx"))))]
        if m == [0, 1] and it.ctx.valid(or_(eq(v, lift(0, "cx")), eq(v, lift(1, "cx")))):
            return ite(eq(v, lift(1, "cx")), ic(1), ic(0))
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, E) and v.sort in ("int", "bool"):
        return lift(v, "int")
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise RaiseSig("ValueError")
    if isinstance(v, Seq) and v.kind == "str":
        n = it.seq_len(v)
        if n == 1:
            c = lift(it.seq_get(v, 0))
            if it.branch(and_(le(ic(48), c), le(c, ic(57)))):
                return sub(c, ic(48))
            raise RaiseSig("ValueError")
    if isinstance(v, E) and v.op == "app" and v.args[0] in ("real:ceil", "real:floor"):
        return app(v.args[0][5:], *v.args[1:])
    if isinstance(v, Sp) and v.name == "qubit":
        return it.measured(v)
    if isinstance(v, Sp) and hasattr(v, "toint"):
        return v.toint(it)
    raise Unsupported("int(%r)" % (v,))


@model("float")
def _(it, a, k):
    v = a[0]
    if isinstance(v, (int, float, Fraction)):
        return Fraction(v) if not isinstance(v, float) else v
    if isinstance(v, E):
        return tocx(v)
    raise Unsupported("float(%r)" % (v,))


@model("complex")
def _(it, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        return complex(*a)
    x = lift(a[0], "cx")
    y = lift(a[1], "cx") if len(a) > 1 else cc(0)
    return add(x, mul(cc((Fraction(0), Fraction(1))), y))


@model("str")
def _(it, a, k):
    v = a[0]
    if isinstance(v, (int, str)):
        return str(v)
    if isinstance(v, E) and v.sort == "int":
        return Sp("strint", value=v)
    return Opaque("string")


@model("abs", "numpy.abs", "numpy.absolute")
def _(it, a, k):
    v = a[0]
    if isinstance(v, (int, float, complex, Fraction)):
        return abs(v)
    return elementwise(it, v, absval)


def best(it, s, key, sign):
    """min/max(s, key=f): the first element with the least (largest) key."""
    n = it.seq_len(s)
    if not it.branch(lt(ic(0), lift(n))):
        raise RaiseSig("ValueError")
    at = lambda i: it.wrap_item(s, it.seq_get(s, i))
    val = lambda i: lift(it.call(key, [at(i)], {}))
    beats = (lambda x, y: lt(y, x)) if sign > 0 else (lambda x, y: lt(x, y))
    if isinstance(n, int) and n <= 64:
        w = 0
        for i in range(1, n):
            w = i if it.branch(beats(val(i), val(w))) else w
        return at(w)
    w = fresh("W")
    it.skolems[w.args[0]] = "int"
    j = fresh("k")
    vj = val(j)
    vw = subst(vj, {j.args[0]: w})
    it.ctx.assume(and_(le(ic(0), w), lt(w, lift(n))))
    it.ctx.assume(not_(exists(j, lift(n), beats(vj, vw))))
    it.ctx.assume(not_(exists(j, w, not_(beats(vw, vj)))))
    return at(w)


def _mm(sign):
    def f(it, a, k):
        if set(k) - {"key"}:
            raise Unsupported("min/max with options")
        if k:
            return best(it, it.iter_seq(a[0]) if len(a) == 1 else Seq("list", (Items(a),)), k["key"], sign)
        if len(a) == 1:
            return extremum(it, a, k, sign)
        inf = [x for x in a if isinstance(x, Opaque) and x.name == "inf"]
        if inf and (sign > 0 or len(inf) == len(a)):
            return inf[0]
        a = [x for x in a if x not in inf]
        if not all(is_scalar(x) for x in a):
            raise Unsupported("min/max")
        r = a[0]
        for x in a[1:]:
            if any(n.startswith("pre:") for y in (r, x) if isinstance(y, E) for n in y.fv):
                p, q = lift(r), lift(x)
                if p.sort != q.sort:
                    p, q = lift(p, "cx"), lift(q, "cx")
                r = q if it.branch(lt(p, q) if sign > 0 else lt(q, p)) else p
                continue
            if not isinstance(r, E) and not isinstance(x, E):
                r = max(r, x) if sign > 0 else min(r, x)
                continue
            p, q = lift(r), lift(x)
            if p.sort != q.sort:
                p, q = lift(p, "cx"), lift(q, "cx")
            r = ite(lt(p, q), q, p) if sign > 0 else ite(lt(q, p), q, p)
        return r
    return f


TABLE["max"], TABLE["min"] = _mm(1), _mm(-1)


@model("sum")
def _(it, a, k):
    s = it.iter_seq(a[0])
    n = it.seq_len(s)
    acc = a[1] if len(a) > 1 else 0
    if isinstance(n, int):
        for i in range(n):
            acc = it.binop(ast.Add(), acc, it.seq_get(s, i))
        return acc
    x = fresh("k")
    rep = it.seq_get(s, x)
    if is_scalar(rep):
        return add(lift(acc), sum_(x, lift(n), lift(rep)))
    arr = it.seq_to_arr(s)
    tot = sum_axes(it, arr, [0])
    return it.binop(ast.Add(), acc, tot) if acc != 0 else tot


def _any_all(name):
    """Over the parts of the sequence (nested blocks: nested quantifiers)."""
    join = or_ if name == "any" else and_

    def over(it, s):
        rs = []
        for p in s.parts:
            if isinstance(p, If):
                rs.append(ite(p.cond, over(it, p.a), over(it, p.b)))
                continue
            if isinstance(p, Items):
                rs += [lift(it.truth(it.wrap_item(s, x))) for x in p.vals]
                continue
            if not isinstance(p, (Sub, Loop)):
                raise Unsupported("%s over %r" % (name, p))
            if isinstance(p.n, int) and p.n <= 64:
                ks = [ic(j) for j in range(p.n)]
            else:
                ks = [fresh("k")]
            bs = [over(it, p.fn(k)) if isinstance(p, Loop) else lift(it.truth(it.wrap_item(s, p.fn(k)))) for k in ks]
            if isinstance(p.n, int) and p.n <= 64:
                rs += bs
            else:
                rs.append(exists(ks[0], lift(p.n), bs[0]) if name == "any" else not_(exists(ks[0], lift(p.n), not_(bs[0]))))
        return join(*rs) if rs else (FALSE if name == "any" else TRUE)

    def f(it, a, k):
        r = over(it, it.iter_seq(a[0]))
        return True if r is TRUE else False if r is FALSE else r
    return f


for _n in ("any", "all"):
    TABLE[_n] = _any_all(_n)


@model("isinstance")
def _(it, a, k):
    return isinst(it, a[0], a[1])


@model("issubclass")
def _(it, a, k):
    return it.is_subclass(a[0], a[1].name)


@model("hasattr")
def _(it, a, k):
    if is_arr(a[0]):
        sp = isinstance(a[0], Nd) and a[0].sparse
        if a[1] == "tocsr":
            return bool(sp)
        if a[1] in ("shape", "ndim", "T"):
            return True
    if isinstance(a[0], Obj):
        return a[1] in it.heap[a[0].ref] or it.class_member(a[0].cls, a[1]) is not None
    raise Unsupported("hasattr(%r, %r)" % (a[0], a[1]))


@model("type")
def _(it, a, k):
    if isinstance(a[0], Obj):
        return a[0].cls
    raise Unsupported("type()")


@model("dict")
def _(it, a, k):
    d = {}
    if a:
        d.update(it.heap[a[0].ref])
    d.update(k)
    return it.new_dict(d)


@model("ord")
def _(it, a, k):
    s = it.seq(a[0])
    return it.seq_get(s, 0)


@model("chr")
def _(it, a, k):
    return it.wrap_item(Seq("str"), D(a[0]))


@model("bool")
def _(it, a, k):
    return it.truth(a[0])


@model("round")
def _(it, a, k):
    v = lift(a[0])
    if v.sort == "int":
        return D(v)
    raise Unsupported("round")


@model("object.__init__", "warnings.warn", "method.enable_caching", "method.flush", "method.sort_indices", "method.sum_duplicates")
def _noop(it, *a):
    return None


@model("super")
def _(it, a, k):
    if len(a) == 1:         # unbound: its own __init__ initialises the super object and nothing else
        return Opaque("super", attrs={"__init__": Opaque("super.__init__", attrs={"call": lambda it, a, k: None})})
    cls, me = a[0], a[1]
    b = list(it.bases(cls))
    return Sp("super", attr=lambda i, name: i.super_attr(b, name, me))


# ---------------------------------------------------------------- list / str / dict methods
@model("method.append")
def _(it, o, a, k):
    if isinstance(o, Lst):
        it.heap[o.ref] = it.heap[o.ref].append([a[0]])
        return None
    raise Unsupported("append to %r" % (o,))


@model("method.extend")
def _(it, o, a, k):
    if isinstance(o, Lst):
        it.heap[o.ref] = it.heap[o.ref].concat(plain(it, it.iter_seq(a[0])))
        return None
    raise Unsupported("extend %r" % (o,))


@model("method.join")
def _(it, o, a, k):
    if not isinstance(o, str):
        raise Unsupported("join")
    s = it.iter_seq(a[0])
    n = it.seq_len(s)
    if isinstance(n, int):
        r = Seq("str")
        for i in range(n):
            if i and o:
                r = r.concat(it.seq(o))
            r = r.concat(it.seq(it.wrap_item(s, it.seq_get(s, i))))
        return it.rewrap("", r)
    if o == "":
        return Seq("str", (Loop(n, lambda i: it.seq(it.seq_get(s, i))),))
    raise Unsupported("join")


@model("method.count")
def _(it, o, a, k):
    if isinstance(o, str):
        return o.count(a[0])
    s = it.seq(o)
    n = it.seq_len(s)
    if not (isinstance(a[0], str) and len(a[0]) == 1):
        raise Unsupported("count")
    c = ic(ord(a[0]))
    if isinstance(n, int):
        return D(add(*[ite(eq(lift(it.seq_get(s, i)), c), ic(1), ic(0)) for i in range(n)])) if n else 0
    x = fresh("k")
    return sum_(x, lift(n), ite(eq(lift(it.seq_get(s, x)), c), ic(1), ic(0)))


@model("method.items")
def _(it, o, a, k):
    return Seq("list", (Items([(x, y) for x, y in it.heap[o.ref].items()]),))


@model("method.keys")
def _(it, o, a, k):
    return Seq("list", (Items(list(it.heap[o.ref])),))


@model("method.values")
def _(it, o, a, k):
    return Seq("list", (Items(list(it.heap[o.ref].values())),))


# ---------------------------------------------------------------- numpy: construction
def np_array(it, v, dtype=None):
    if spflag(v):
        raise Unsupported("np.array of a sparse array")
    if isinstance(v, Lst):
        s = it.heap[v.ref]
        if any(isinstance(p, (Loop, If)) for p in s.parts) and dtype is None:
            try:
                it.arr(v)
            except Unsupported as ex:
                print("ARR", ex) if __import__("os").environ.get("PYDED_NF") else None
                # rows chosen along the way: kept as the list of its rows
                return Sp("iter", seq=lambda it: s, rows=s)
    a = it.arr(v)
    s = dtype_sort(it, dtype, a.sort)
    if s == "int" and a.sort == "bool":
        f = a.fn
        return it.nd(Arr(a.shape, lambda *i: lift(f(*i), "int"), "int"))
    if s == "int" and a.sort == "cx":
        raise Unsupported("complex to integer conversion")
    if s == "cx" and a.sort != "cx":
        f = a.fn
        return it.nd(Arr(a.shape, lambda *i: lift(f(*i), "cx"), "cx"))
    return it.nd(Arr(a.shape, a.fn, a.sort, attrs=a.attrs))


@model("numpy.array", "numpy.asarray", "numpy.copy")
def _(it, a, k):
    return np_array(it, a[0], k.get("dtype") or (a[1] if len(a) > 1 else None))


@model("numpy.argsort")
def _(it, a, k):
    """argsort of a permutation (a table declared as one by the name perm:...) is its inverse."""
    x = it.arr(a[0])
    j = fresh("j")
    e = lift(x.fn(j)) if x.ndim == 1 else None
    if e is not None and e.sort == "int" and not k and len(a) == 1 and j.args[0] not in sub(e, j).fv:
        return it.nd(Arr(x.shape, lambda c: lift(c), "int"))       # increasing
    if k or len(a) != 1 or e is None or e.op != "app" or not e.args[0].startswith("perm:") or e.args[-1] is not j or \
            any(j.args[0] in y.fv for y in e.args[1:-1]):
        raise Unsupported("numpy.argsort of something that is not declared a permutation")
    name, pre = e.args[0], e.args[1:-1]

    def fn(c):
        c = lift(c)
        if c.op == "app" and c.args[:-1] == (name,) + pre:
            return c.args[-1]
        return app("inverse:" + name, *pre, c)
    it.ctx.lemmas = dict(it.ctx.lemmas, **{"inverse:" + name: lambda *y: implies(
        and_(le(ic(0), y[-1]), lt(y[-1], lift(x.shape[0]))),
        and_(le(ic(0), app("inverse:" + name, *y)), lt(app("inverse:" + name, *y), lift(x.shape[0])),
             eq(app(name, *y[:-1], app("inverse:" + name, *y)), y[-1])))})
    return it.nd(Arr(x.shape, fn, "int"))


@model("itertools.combinations")
def _(it, a, k):
    """combinations(s, 2): the pairs (s_i, s_j) with i < j, ordered by i, then j."""
    r = D(k.get("r", a[1] if len(a) > 1 else None))
    s = it.iter_seq(a[0])
    n = it.seq_len(s)
    if r == 1:
        return Seq("list", (Sub(n, lambda i: (it.wrap_item(s, it.seq_get(s, i)),)),))
    if r != 2:
        raise Unsupported("itertools.combinations of %s" % (r,))
    at = lambda i: it.wrap_item(s, it.seq_get(s, i))
    if isinstance(n, int):
        return Seq("list", (Items([(at(i), at(j)) for i in range(n) for j in range(i + 1, n)]),))
    return Seq("list", (Nest(n, lambda i: Seq("list", (Sub(sub(sub(lift(n), ic(1)), lift(i)),
                                                           lambda j: (at(i), at(add(add(lift(i), ic(1)), lift(j))))),))),))


@model("itertools.chain")
def _(it, a, k):
    r = Seq("list")
    for x in a:
        r = r.concat(plain(it, it.iter_seq(x)))
    return r


@model("itertools.product")
def _(it, a, k):
    if len(a) == 2 and not k:
        s, t = [it.iter_seq(x) for x in a]
        n, m = it.seq_len(s), it.seq_len(t)
        pair = lambda i, j: (it.wrap_item(s, it.seq_get(s, i)), it.wrap_item(t, it.seq_get(t, j)))
        if isinstance(n, int) and isinstance(m, int):
            return Seq("list", (Items([pair(i, j) for i in range(n) for j in range(m)]),))
        return Seq("list", (Nest(n, lambda i: Seq("list", (Sub(m, lambda j: pair(i, j)),))),))
    return product_power(it, a, k)


def product_power(it, a, k):
    """product([x, y], repeat=n): every vector of n entries, each once, as tuples; prodbit(n, i, p) says that entry p of
    vector i is y."""
    if len(a) != 1 or set(k) - {"repeat"}:
        raise Unsupported("itertools.product of several iterables")
    vals = it.concrete_items(a[0])
    n = D(k.get("repeat", 1))
    if len(vals) != 2 or not all(is_scalar(x) for x in vals):
        raise Unsupported("itertools.product")
    if isinstance(n, E) and not it.ctx.valid(le(ic(0), n)):
        raise Unsupported("itertools.product repeated an unknown number of times")
    N = app("power", ic(2), lift(n)) if isinstance(n, E) else 2 ** n
    if isinstance(n, E):
        it.ctx.assume(le(ic(1), N))
    x, y = lift(vals[0]), lift(vals[1])
    return Seq("list", (Sub(N, lambda i: Seq("tuple", (Sub(n, lambda p: ite(app("prodbit", lift(n), lift(i), lift(p), sort="bool"), y, x)),))),))


@model("numpy.zeros", "numpy.ones")
def _zeros(it, a, k, one=0):
    sh = shape_of(it, a[0] if a else k["shape"])
    dt = k.get("dtype") or (a[1] if len(a) > 1 else None)
    for s in sh:
        if isinstance(s, E) and not it.ctx.valid(le(ic(0), s)):
            raise Unsupported("array dimension of unknown sign")
    sort = dtype_sort(it, dt, "int")
    site = it.cursite
    if dt is None and site in it.promoted:
        sort = "cx"
    return it.nd(Arr(sh, lambda *i: lift(one, sort), sort, attrs={} if dt is not None else {"dtype": "float", "site": site}))


TABLE["numpy.ones"] = lambda it, a, k: _zeros(it, a, k, 1)


@model("numpy.zeros_like")
def _(it, a, k):
    x = it.arr(a[0])
    return it.nd(Arr(x.shape, lambda *i: lift(0, x.sort), x.sort))


@model("scipy.sparse.identity", "scipy.sparse.eye")
def _(it, a, k):
    r = TABLE["numpy.eye"](it, a, k)
    return Nd(r.ref, sparse=k.get("format") or "dia")


@model("numpy.eye", "numpy.identity")
def _(it, a, k):
    dt = k.get("dtype")
    n = D(a[0])
    m = D(a[1]) if len(a) > 1 else None
    r = eye(it, n, m, dtype_sort(it, dt, "int"))
    return r


@model("numpy.diag", "numpy.diagonal")
def _(it, a, k):
    x = it.arr(a[0])
    if x.ndim == 1:
        n = x.shape[0]
        return it.nd(Arr((n, n), lambda i, j: ite(eq(lift(i), lift(j)), lift(x.fn(i)), lift(0, x.sort)), x.sort))
    n1, n2 = x.shape
    n = n1 if same(it, n1, n2) or it.ctx.valid(le(lift(n1), lift(n2))) else \
        n2 if it.ctx.valid(le(lift(n2), lift(n1))) else D(ite(le(lift(n1), lift(n2)), lift(n1), lift(n2)))
    return it.nd(Arr((n,), lambda i: x.fn(i, i), x.sort))


@model("numpy.arange")
def _(it, a, k):
    r = TABLE["range"](it, a, {})
    return it.nd(Arr((r.n,), lambda i: add(lift(r.lo), mul(lift(i), ic(r.step))), "int"))


# ---------------------------------------------------------------- numpy: shape
@model("numpy.reshape")
def _(it, a, k):
    sh = a[1] if len(a) == 2 else tuple(a[1:])
    if "newshape" in k:
        sh = k["newshape"]
    return reshape(it, a[0], shape_of(it, sh), k.get("order", "C"))


@model("method.reshape")
def _(it, o, a, k):
    sh = a[0] if len(a) == 1 else tuple(a)
    return reshape(it, o, shape_of(it, sh), k.get("order", "C"))


@model("numpy.ravel", "method.flatten")
def _rav(it, a, k, *r):
    if is_arr(a):
        o, a, k = a, k, r[0]
        order = a[0] if a else k.get("order", "C")
        x = it.arr(o)
        return reshape(it, o, [prod(x.shape)], order)
    order = a[1] if len(a) > 1 else k.get("order", "C")
    x = it.arr(a[0])
    if x.ndim == 0:
        return it.nd(Arr((1,), lambda i: x.fn(), x.sort))
    return reshape(it, a[0], [prod(x.shape)], order)


@model("numpy.transpose")
def _(it, a, k):
    x = it.arr(a[0])
    ax = a[1] if len(a) == 2 else k.get("axes") if len(a) == 1 else tuple(a[1:])
    axes = list(range(x.ndim))[::-1] if ax is None else axes_of(it, ax)
    return view_t(it, a[0], axes)


@model("method.transpose")
def _(it, o, a, k):
    if len(a) > 1:
        a = [tuple(a)]
    return TABLE["numpy.transpose"](it, [o] + list(a), k)


@model("numpy.swapaxes")
def _(it, a, k):
    x = it.arr(a[0])
    axes = list(range(x.ndim))
    p, q = a[1], a[2]
    axes[p], axes[q] = axes[q], axes[p]
    return view_t(it, a[0], axes)


@model("numpy.hstack")
def _(it, a, k):
    xs = it.concrete_items(a[0])
    return concat(it, xs, 0 if it.arr(xs[0]).ndim == 1 else 1)


@model("numpy.vstack")
def _(it, a, k):
    xs = it.concrete_items(a[0])
    if it.arr(xs[0]).ndim == 1:
        xs = [it.index(x, [("none", None)]) for x in xs]
    return concat(it, xs, 0)


@model("numpy.concatenate")
def _(it, a, k):
    axis = k.get("axis", a[1] if len(a) > 1 else 0)
    if not isinstance(a[0], tuple):
        s = it.iter_seq(a[0])
        if not isinstance(it.seq_len(s), int):
            if axis != 0:
                raise Unsupported("concatenation of a symbolic number of arrays along another axis")
            return concat_uneven(it, s)
    return concat(it, it.concrete_items(a[0]), axis)


@model("numpy.append")
def _(it, a, k):
    if "axis" in k:
        raise Unsupported("append axis")
    return concat(it, [TABLE["numpy.ravel"](it, [x], {}) for x in a], 0)


class Enum:
    """Index arrays that enumerate a set of positions, each once: cond(*pos), index of a position at(*pos)."""

    def __init__(self, cond, at):
        self.cond, self.at = cond, at


@model("numpy.tril_indices")
def _(it, a, k):
    """Positions (i, j), i < n, j < m, j <= i + k, row by row (assumed: an enumeration of them, each once)."""
    n, kk, m = D(a[0]), k.get("k", a[1] if len(a) > 1 else 0), k.get("m", a[2] if len(a) > 2 else None)
    m = n if m is None else D(m)
    if kk != -1 or not it.ctx.valid(and_(le(ic(0), lift(m)), le(lift(m), lift(n)))):
        raise Unsupported("tril_indices with other arguments")
    n_, m_ = lift(n), lift(m)
    # 2 C = m (m - 1) + 2 (n - m) m
    c = app("trilcount", n_, m_)
    it.ctx.lemmas["trilcount"] = lambda n, m: and_(eq(mul(ic(2), app("trilcount", n, m)),
                                                      add(mul(m, sub(m, ic(1))), mul(ic(2), sub(n, m), m))), le(ic(0), app("trilcount", n, m)))
    it.ctx.lemmas["trilrow"] = lambda n, m, p: implies(and_(le(ic(0), p), lt(p, app("trilcount", n, m))),
                                                       and_(lt(app("trilcol", n, m, p), app("trilrow", n, m, p)), lt(app("trilrow", n, m, p), n),
                                                            le(ic(0), app("trilcol", n, m, p)), lt(app("trilcol", n, m, p), m),
                                                            eq(app("trilpos", n, m, app("trilrow", n, m, p), app("trilcol", n, m, p)), p)))
    it.ctx.lemmas["trilcol"] = it.ctx.lemmas["trilrow"]
    it.ctx.lemmas["trilpos"] = lambda n, m, i, j: implies(and_(le(ic(0), j), lt(j, i), lt(i, n), lt(j, m)),
                                                          and_(le(ic(0), app("trilpos", n, m, i, j)), lt(app("trilpos", n, m, i, j), app("trilcount", n, m)),
                                                               eq(app("trilrow", n, m, app("trilpos", n, m, i, j)), i),
                                                               eq(app("trilcol", n, m, app("trilpos", n, m, i, j)), j)))
    e = Enum(lambda i, j: and_(lt(j, i), lt(j, m_), lt(i, n_)), lambda i, j: app("trilpos", n_, m_, i, j))
    return tuple(it.nd(Arr((c,), lambda p, f=f: app(f, n_, m_, lift(p)), "int", attrs={"enum": e})) for f in ("trilrow", "trilcol"))


@model("numpy.diag_indices")
def _(it, a, k):
    n = D(a[0])
    if len(a) > 1:
        raise Unsupported("diag_indices of another rank")
    e = Enum(lambda i, j: and_(eq(i, j), lt(i, lift(n))), lambda i, j: i)
    return tuple(it.nd(Arr((n,), lambda p: lift(p), "int", attrs={"enum": e})) for _ in range(2))


@model("numpy.linalg.qr")
def _(it, a, k):
    """mode "r": R upper triangular with R^H R = X^H X (assumed contract)."""
    if (k.get("mode") or (a[1] if len(a) > 1 else None)) != "r":
        raise Unsupported("qr with Q")
    x = it.arr(a[0])
    m, n = x.shape
    if not it.ctx.valid(le(lift(m), lift(n))):
        raise Unsupported("qr of a tall matrix")
    key, fvs = canonical_array_key(it, x)
    R = "qr_r<%s>" % key
    it.eigs_qr.append((R, x, fvs))
    return it.nd(Arr((m, n), lambda i, j: ite(le(lift(i), lift(j)), app(R, lift(i), lift(j), *fvs, sort="cx"), cc(0)), "cx"))


@model("numpy.random.uniform")
def _(it, a, k):
    lo, hi, size = [k.get(n, a[j] if len(a) > j else None) for j, n in enumerate(("low", "high", "size"))]
    return random_array(it, size, lambda x: and_(le(lift(lo, "cx"), x), le(x, lift(hi, "cx"))))


@model("numpy.random.normal")
def _(it, a, k):
    size = k.get("size", a[2] if len(a) > 2 else None)
    return random_array(it, size, None)


def random_array(it, size, fact):
    name = "real:%s" % fresh("rnd").args[0]
    it.skolems[name] = "cx"
    if fact is not None:
        it.ctx.lemmas[name] = lambda *i: fact(app(name, *i, sort="cx"))
    if size is None:
        return app(name, sort="cx")
    sh = shape_of(it, size)
    return it.nd(Arr(sh, lambda *i: app(name, *[lift(x) for x in i], sort="cx"), "cx"))


@model("numpy.random.choice")
def _(it, a, k):
    """Each draw is some element of the list (with replacement)."""
    size = k.get("size", a[1] if len(a) > 1 else None)
    if not (a and len(a) <= 2 and set(k) <= {"size"}):
        raise Unsupported("random choice")
    items = it.concrete_items(a[0])
    if not items or not all(is_scalar(x) for x in items):
        raise Unsupported("random choice")
    name = fresh("rndidx").args[0]
    it.skolems[name] = "int"
    it.ctx.lemmas[name] = lambda *i: and_(le(ic(0), app(name, *i)), lt(app(name, *i), ic(len(items))))
    sort = "cx" if any(lift(x).sort == "cx" for x in items) else "int"

    def at(*i):
        v = lift(items[-1], sort)
        for j in range(len(items) - 2, -1, -1):
            v = ite(eq(app(name, *[lift(x) for x in i]), ic(j)), lift(items[j], sort), v)
        return v
    if size is None:
        return at()
    return it.nd(Arr(shape_of(it, size), at, sort))


@model("method.reverse")
def _(it, o, a, k):
    if not isinstance(o, Lst):
        raise Unsupported("reverse %r" % (o,))
    s = it.heap[o.ref]
    n = it.seq_len(s)
    it.heap[o.ref] = Seq("list", (Items([it.seq_get(s, n - 1 - i) for i in range(n)]),)) if isinstance(n, int) else \
        Seq("list", (Sub(n, lambda i: it.seq_get(s, sub(sub(lift(n), ic(1)), lift(i)))),))


def extremum_cmp(x, sign):
    """Comparison of the largest (smallest) entry of an array with a number: a statement about all entries."""
    def cmp(it, t, a, b):
        left = isinstance(a, Opaque)
        c = b if left else a
        if not is_scalar(c):
            raise Unsupported("comparison of an extremum")
        if not left:
            t = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(t, t)
        c = lift(c, x.sort)
        for d in x.shape:
            it.oblige("the array is not empty", lt(ic(0), lift(d)))
        vs = [fresh("k") for _ in x.shape]
        e = lift(x.fn(*vs), x.sort)
        rel = {"Lt": lt(e, c), "LtE": le(e, c), "Gt": lt(c, e), "GtE": le(c, e)}.get(t)
        if rel is None:
            raise Unsupported("comparison of an extremum")
        every = (t in ("Lt", "LtE")) == (sign > 0)
        r = not_(rel) if every else rel
        for v, d in reversed(list(zip(vs, x.shape))):
            r = exists(v, lift(d), r)
        return not_(r) if every else r
    return cmp


def extremum(it, a, k, sign):
    """The largest (smallest) element of a non-empty sequence of real numbers: a bound of all that one attains."""
    x = it.arr(a[0])
    if len(a) > 1 or k or x.ndim < 1 or x.sort == "bool":
        raise Unsupported("max along an axis")
    if x.ndim > 1:
        return Opaque("max" if sign > 0 else "min", attrs={"#cmp": extremum_cmp(x, sign)})
    n = lift(x.shape[0])
    it.oblige("the sequence is not empty", lt(ic(0), n))
    if x.sort == "bool":
        raise Unsupported("max of booleans")
    name = fresh("max" if sign > 0 else "min").args[0]
    m = app(("real:" if x.sort == "cx" else "") + name, sort=x.sort)
    it.skolems[m.args[0]] = x.sort
    v = fresh("k")
    e = lift(x.fn(v))
    it.ctx.assume(not_(exists(v, n, lt(m, e) if sign > 0 else lt(e, m))))
    it.ctx.assume(exists(v, n, le(m, e) if sign > 0 else le(e, m)))
    return D(m)


@model("numpy.max", "numpy.amax")
def _(it, a, k):
    return extremum(it, a, k, 1)


@model("numpy.min", "numpy.amin")
def _(it, a, k):
    return extremum(it, a, k, -1)


@model("numpy.column_stack")
def _(it, a, k):
    xs = []
    for x in it.concrete_items(a[0]):
        if it.arr(x).ndim == 1:
            v = it.arr(x)
            xs.append(Arr((v.shape[0], 1), (lambda v: lambda i, j: v.fn(i))(v), v.sort))
        else:
            xs.append(x)
    return concat(it, xs, 1)


@model("numpy.stack", "sparse.stack")
def _(it, a, k):
    r = it.nd(stack(it, a[0], k.get("axis", a[1] if len(a) > 1 else 0)))
    s = it.iter_seq(a[0])
    n = it.seq_len(s)
    x = it.seq_get(s, 0 if isinstance(n, int) else fresh("k"))
    if isinstance(x, Nd) and x.sparse:
        r.sparse = x.sparse
    return r


@model("method.copy")
def _(it, o, a, k):
    if is_arr(o):
        x = it.arr(o)
        return out(it, Arr(x.shape, x.fn, x.sort, attrs=x.attrs), o)
    if isinstance(o, Lst):
        return Lst(it.new(it.heap[o.ref]))
    if isinstance(o, Sp) and o.name == "dict":
        return it.new_dict(dict(it.heap[o.ref]))
    raise Unsupported("copy of %r" % (o,))


@model("method.update")
def _(it, o, a, k):
    if isinstance(o, Sp) and o.name == "dict":
        for x in a:
            if not (isinstance(x, Sp) and x.name == "dict"):
                raise Unsupported("update from %r" % (x,))
            for y, v in it.heap[x.ref].items():
                it.dict_store(o, y, v)
        for y, v in k.items():
            it.dict_store(o, y, v)
        return None
    raise Unsupported("update of %r" % (o,))


@model("method.get")
def _(it, o, a, k):
    if isinstance(o, Sp) and o.name == "dict":
        return it.dict_lookup(o, a[0], a[1] if len(a) > 1 else k.get("default"))[1]
    raise Unsupported("get of %r" % (o,))


@model("method.setdefault")
def _(it, o, a, k):
    if isinstance(o, Sp) and o.name == "dict":
        found, r = it.dict_lookup(o, a[0])
        if not found:
            r = a[1] if len(a) > 1 else None
            it.dict_store(o, a[0], r)
        return r
    raise Unsupported("setdefault of %r" % (o,))


@model("method.items")
def _(it, o, a, k):
    if isinstance(o, Sp) and o.name == "dict":
        return it.lst([tuple(x) for x in it.heap[o.ref].items()])
    raise Unsupported("items of %r" % (o,))


# ---------------------------------------------------------------- numpy: algebra
@model("numpy.conj", "numpy.conjugate")
def _(it, a, k):
    return elementwise(it, a[0], conj)


@model("numpy.real")
def _(it, a, k):
    return elementwise(it, a[0], re_part)


@model("numpy.imag")
def _(it, a, k):
    return elementwise(it, a[0], im_part)


def no_scipy(name, vals):
    """numpy's own functions do not know scipy.sparse matrices."""
    if any(spflag(v) not in (False, "COO") for v in vals):
        raise Unsupported("%s of a scipy.sparse matrix" % name)


@model("numpy.dot")
def _(it, a, k):
    no_scipy("numpy.dot", a)
    return dot(it, a[0], a[1])


@model("numpy.matmul", "sparse.matmul")
def _(it, a, k):
    no_scipy("matmul", a)
    return matmul(it, a[0], a[1])


@model("numpy.kron", "sparse.kron")
def _(it, a, k):
    no_scipy("kron", a)
    return kron(it, a[0], a[1])


@model("scipy.sparse.kron")
def _(it, a, k):
    r = kron(it, a[0], a[1])
    r.sparse = r.sparse or k.get("format") or "bsr"
    return r


@model("numpy.einsum")
def _(it, a, k):
    no_scipy("einsum", a)
    return einsum(it, a, k)


@model("numpy.tensordot", "sparse.tensordot")
def _(it, a, k):
    ax = k.get("axes", a[2] if len(a) > 2 else 2)
    if isinstance(ax, int):
        raise Unsupported("tensordot axes")
    return tensordot(it, a[0], a[1], ax if isinstance(ax, tuple) else tuple(it.concrete_items(ax)))


@model("numpy.outer")
def _(it, a, k):
    x, y = it.arr(a[0]), it.arr(a[1])
    s = csort(x, y)
    return it.nd(Arr((x.shape[0], y.shape[0]), lambda i, j: mul(lift(x.fn(i), s), lift(y.fn(j), s)), s))


@model("numpy.trace")
def _(it, a, k):
    return trace(it, a[0], k.get("axis1", a[2] if len(a) > 2 else 0), k.get("axis2", a[3] if len(a) > 3 else 1))


@model("numpy.sum")
def _(it, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    if is_scalar(a[0]):
        return a[0]
    if is_bag(a[0]):
        if ax not in (None, 0):
            raise Unsupported("axis of a selected array")
        return bag_sum(it, a[0])
    return sum_axes(it, a[0], None if ax is None else axes_of(it, ax))


@model("numpy.all")
def _(it, a, k):
    if is_scalar(a[0]):
        return it.truth(a[0])
    if len(a) > 1 or any(k[x] is not None for x in k):
        raise Unsupported("all along an axis")
    return quant(it, a[0], None, "all")


@model("numpy.any")
def _(it, a, k):
    if is_scalar(a[0]):
        return it.truth(a[0])
    if len(a) > 1 or any(k[x] is not None for x in k):
        raise Unsupported("any along an axis")
    return quant(it, a[0], None, "any")


@model("numpy.prod")
def _(it, a, k):
    return prod([D(x) for x in it.concrete_items(a[0])])


ROUNDING = Fraction(1, 10 ** 12)


def rounding(it, name, v, strict=False):
    """Obligation: the function stays within its domain although the eigenvalues of a positive semidefinite matrix come
    out of eigh as low as -1e-12."""
    parts = []
    if is_bag(v):
        for (vs, rs, c), x in zip(v.dom, v.vals):
            parts.append((and_(c, *[and_(le(ic(0), q), lt(q, lift(h))) for q, h in zip(vs, rs)]), lift(x)))
    elif is_scalar(v):
        parts.append((TRUE, lift(v)))
    else:
        a = it.arr(v)
        vs = [fresh("k") for _ in a.shape]
        parts.append((and_(*[and_(le(ic(0), q), lt(q, lift(h))) for q, h in zip(vs, a.shape)]), lift(a.fn(*vs))))
    for cond, e in parts:
        e = lift(e, "cx")
        sub_ = list(subterms(e)) + list(subterms(cond))
        ws = {x for x in sub_ if x.op == "app" and x.args[0].startswith("real:eigval<")}
        # sums (over other eigenvalues) are not looked into
        if not ws or any(x.op in ("sum", "first", "exists") and any(y in ws for y in subterms(x)) for x in sub_):
            continue
        c = it.ctx.clone()
        c.assume(cond)
        for w in ws:
            c.assume(le(neg(w), cc(ROUNDING)))
        for x in set(sub_):
            if x.op == "app" and x.args[0] == "real:abs" and const_of(x.args[1]) is None:
                y = x.args[1]
                c.assume(or_(and_(le(cc(0), y), eq(x, y)), and_(le(y, cc(0)), eq(x, neg(y)))))
            if x.op == "app" and x.args[0] == "real:pos":
                c.assume(le(cc(0), x))
        goal = lt(cc(0), e) if strict else le(cc(0), e)
        ok = c.valid(goal)
        it.obligations.append(("%s of a computed eigenvalue that rounding may have pushed below zero" % name,
                               "discharged" if ok else "unproved", "" if ok else goal.key[:300]))


@model("numpy.sqrt")
def _(it, a, k):
    rounding(it, "square root", a[0])
    return elementwise(it, a[0], rsqrt, "cx")


def rsqrt(x):
    x = lift(x, "cx")
    c = const_of(x)
    if c is not None and c[1] == 0:
        import math
        for n in (c[0],):
            p, q = math.isqrt(abs(n.numerator)), math.isqrt(n.denominator)
            if n >= 0 and p * p == n.numerator and q * q == n.denominator:
                return cc(Fraction(p, q))
    # real square root of a nonnegative real (models using it owe that obligation)
    return app("real:sqrt", x, sort="cx")


@model("numpy.log2", "numpy.log", "numpy.exp", "numpy.ceil", "numpy.angle")
def _un(it, a, k):
    raise Unsupported("transcendental function")


for _n in ("log2", "log", "ceil", "floor", "angle"):
    TABLE["numpy." + _n] = (lambda n: lambda it, a, k: (rounding(it, n, a[0], True) if n.startswith("log") else None) or elementwise(it, a[0], lambda x: app("real:" + n, lift(x, "cx"), sort="cx"), "cx"))(_n)
TABLE["numpy.exp"] = lambda it, a, k: elementwise(it, a[0], lambda x: app("exp", lift(x, "cx"), sort="cx"), "cx")


@model("numpy.maximum")
def _(it, a, k):
    x, y, sh = it.broadcast(a[0], a[1])

    def f(*i):
        p, q = lift(x(*i), "cx"), lift(y(*i), "cx")
        if const_of(q) == (0, 0):
            return app("real:pos", p, sort="cx")
        return ite(le(q, p), p, q)
    if not sh:
        return f()
    return it.nd(Arr(sh, f, "cx"))


@model("numpy.linalg.eigh")
def _(it, a, k):
    return eigh(it, a[0])


@model("numpy.linalg.eigvalsh")
def _(it, a, k):
    return eigh(it, a[0], True)


@model("numpy.flatnonzero")
def _(it, a, k):
    x = it.arr(a[0])
    if x.ndim != 1:
        raise Unsupported("flatnonzero of a matrix")
    n = x.shape[0]

    def nz(i):
        v = lift(x.fn(i))
        return v if v.sort == "bool" else ne(v, lift(0, v.sort))
    me = Sp("nonzero", n=n, nz=nz, length=count(n, nz))
    me.getitem = lambda it, sl, frame: nonzero_get(it, me, sl, frame)
    return me


@model("numpy.nonzero")
def _(it, a, k):
    return (TABLE["numpy.flatnonzero"](it, a, {}),)


def count(n, nz):
    k = fresh("k")
    return sum_(k, lift(n), ite(nz(k), ic(1), ic(0)))


def nonzero_get(it, self, sl, frame):
    """The first of the positions (others are not described)."""
    v = it.eval(sl, frame) if not isinstance(sl, ast.Slice) else None
    if isinstance(v, bool) or D(v) != 0:
        raise Unsupported("nonzero element")
    k = fresh("k")
    hit = lambda h: exists(k, h, self.nz(k))
    if not it.branch(hit(lift(self.n))):
        raise RaiseSig("IndexError")
    fi = first(k, lift(self.n), self.nz(k))
    it.ctx.assume(and_(le(ic(0), fi), lt(fi, lift(self.n)), self.nz(fi)))
    it.ctx.assume(not_(hit(fi)))
    return fi


# ---------------------------------------------------------------- sparse
@model("sparse.COO")
def _(it, a, k):
    if isinstance(a[0], Nd) and a[0].sparse:
        return a[0]
    x = it.arr(a[0])
    return it.nd(Arr(x.shape, x.fn, x.sort), sparse="COO")


@model("scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix")
def _(it, a, k):
    x = it.arr(a[0])
    if x.ndim != 2:
        raise Unsupported("sparse matrix of rank %d" % x.ndim)
    s = dtype_sort(it, k.get("dtype"), x.sort)
    return it.nd(Arr(x.shape, lambda *i: lift(x.fn(*i), s), s), sparse="csr")


@model("scipy.sparse.coo_matrix")
def _(it, a, k):
    r = TABLE["scipy.sparse.csr_matrix"](it, a, k)
    r.sparse = "coo"
    return r


@model("scipy.sparse.issparse")
def _(it, a, k):
    return bool(spflag(a[0])) and spflag(a[0]) != "COO"


@model("method.todense", "method.toarray")
def _(it, o, a, k):
    x = it.arr(o)
    return it.nd(Arr(x.shape, x.fn, x.sort))


@model("method.tocsr", "method.tocsc", "method.asformat")
def _(it, o, a, k):
    x = it.arr(o)
    return it.nd(Arr(x.shape, x.fn, x.sort), sparse="csr")


@model("method.tocoo")
def _(it, o, a, k):
    x = it.arr(o)
    return it.nd(Arr(x.shape, x.fn, x.sort), sparse="coo")


@model("method.astype")
def _(it, o, a, k):
    return np_array(it, o, a[0])


@model("method.dot")
def _(it, o, a, k):
    if isinstance(o, Nd) and o.sparse or True:
        return dot(it, o, a[0])


@model("method.conj", "method.conjugate")
def _(it, o, a, k):
    return elementwise(it, o, conj)


@model("method.multiply")
def _(it, o, a, k):
    return it.binop(ast.Mult(), o, a[0])


# ---------------------------------------------------------------- further numpy functions, by way of the operators
def _ufunc(op):
    return lambda it, a, k: it.binop(op, a[0], a[1])


for _n, _op in (("add", ast.Add()), ("subtract", ast.Sub()), ("multiply", ast.Mult()), ("divide", ast.Div()), ("true_divide", ast.Div()),
                ("mod", ast.Mod()), ("remainder", ast.Mod()), ("floor_divide", ast.FloorDiv()), ("power", ast.Pow())):
    TABLE["numpy." + _n] = _ufunc(_op)
for _n, _op in (("equal", ast.Eq()), ("not_equal", ast.NotEq()), ("less", ast.Lt()), ("less_equal", ast.LtE()),
                ("greater", ast.Gt()), ("greater_equal", ast.GtE())):
    TABLE["numpy." + _n] = (lambda op: lambda it, a, k: it.compare(op, a[0], a[1]))(_op)


def no_options(k, *known):
    if any(x not in known for x in k):
        raise Unsupported("options %s" % sorted(k))


@model("numpy.negative")
def _(it, a, k):
    return it.binop(ast.Sub(), 0, a[0])


@model("numpy.square")
def _(it, a, k):
    return it.binop(ast.Mult(), a[0], a[0])


def _logical(f):
    def g(it, a, k):
        no_options(k)
        t = lambda x: lift(it.truth(x))
        if all(is_scalar(x) for x in a):
            r = f(*[t(x) for x in a])
            return True if r is TRUE else False if r is FALSE else r
        if len(a) == 1:
            x = it.arr(a[0])
            return it.nd(Arr(x.shape, lambda *i: f(t(x.fn(*i))), "bool"))
        x, y, sh = it.broadcast(a[0], a[1])
        return it.nd(Arr(sh, lambda *i: f(t(x(*i)), t(y(*i))), "bool"))
    return g


TABLE["numpy.logical_and"], TABLE["numpy.logical_or"], TABLE["numpy.logical_not"] = _logical(and_), _logical(or_), _logical(not_)
TABLE["numpy.logical_xor"] = _logical(lambda x, y: not_(iff(x, y)))


@model("numpy.where")
def _(it, a, k):
    no_options(k)
    if len(a) == 1:
        return (TABLE["numpy.flatnonzero"](it, a, {}),)
    if len(a) != 3:
        raise Unsupported("where with two arguments")
    if all(is_scalar(x) for x in a):
        return it.merge(lift(it.truth(a[0])), a[1], a[2])
    c, y, _ = it.broadcast(a[0], a[1])
    x, z, _ = it.broadcast(a[0], a[2])
    p, q, sh = it.broadcast(a[1], a[2])
    shape = it.broadcast(a[0], table_of(sh))[2]
    if any(len(it.arr(v).shape) not in (0, len(shape)) for v in a):
        raise Unsupported("where of different ranks")
    s = "cx" if "cx" in (it.arr(a[1]).sort, it.arr(a[2]).sort) else "int"
    C, Y, Z = (it.broadcast(v, table_of(shape))[0] for v in a)
    return it.nd(Arr(shape, lambda *i: ite(lift(it.truth(C(*i))), lift(Y(*i), s), lift(Z(*i), s)), s))


def table_of(shape):
    return Arr(tuple(shape), lambda *i: ic(0), "int")


@model("numpy.minimum")
def _(it, a, k):
    no_options(k)
    return it.binop(ast.Sub(), 0, call(it, "numpy.maximum", [it.binop(ast.Sub(), 0, a[0]), it.binop(ast.Sub(), 0, a[1])], {}, None))


@model("numpy.clip")
def _(it, a, k):
    no_options(k, "a_min", "a_max", "min", "max")
    lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
    hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
    r = a[0]
    if lo is not None:
        r = call(it, "numpy.maximum", [r, lo], {}, None)
    if hi is not None:
        r = call(it, "numpy.minimum", [r, hi], {}, None)
    return r


@model("numpy.vdot")
def _(it, a, k):
    return dot(it, call(it, "numpy.conj", [call(it, "numpy.ravel", [a[0]], {}, None)], {}, None), call(it, "numpy.ravel", [a[1]], {}, None))


@model("numpy.inner")
def _(it, a, k):
    if it.arr(a[0]).ndim != 1 or it.arr(a[1]).ndim != 1:
        raise Unsupported("inner")
    return dot(it, a[0], a[1])


@model("numpy.allclose", "numpy.isclose")
def _close(it, a, k):
    raise Unsupported("allclose")


def close(it, a, k):
    no_options(k, "rtol", "atol")
    rt = a[2] if len(a) > 2 else k.get("rtol", 1e-5)
    at = a[3] if len(a) > 3 else k.get("atol", 1e-8)
    ab = lambda x: call(it, "numpy.abs", [x], {}, None)
    bound = at if const_of(lift(rt, "cx")) == (0, 0) else it.binop(ast.Add(), at, it.binop(ast.Mult(), rt, ab(a[1])))
    return it.compare(ast.LtE(), ab(it.binop(ast.Sub(), a[0], a[1])), bound)


TABLE["numpy.isclose"] = close
TABLE["numpy.allclose"] = lambda it, a, k: call(it, "numpy.all", [close(it, a, k)], {}, None)


@model("numpy.array_equal")
def _(it, a, k):
    no_options(k)
    x, y = it.arr(a[0]), it.arr(a[1])
    if x.ndim != y.ndim:
        return False
    if not it.shape_eq(x.shape, y.shape):
        raise Unsupported("array_equal of shapes that are not known to be equal")
    return call(it, "numpy.all", [it.compare(ast.Eq(), a[0], a[1])], {}, None)


@model("numpy.count_nonzero")
def _(it, a, k):
    no_options(k)
    x = it.arr(a[0])
    return sum_axes(it, it.nd(Arr(x.shape, lambda *i: ite(lift(it.truth(x.fn(*i))), ic(1), ic(0)), "int")), None)


@model("numpy.full")
def _(it, a, k):
    no_options(k, "dtype")
    z = call(it, "numpy.zeros", [a[0]], {"dtype": k["dtype"]} if "dtype" in k else {}, None)
    if not is_scalar(a[1]):
        raise Unsupported("full of an array")
    x = it.arr(z)
    v = lift(a[1], "cx" if "cx" in (x.sort if "dtype" in k else lift(a[1]).sort, lift(a[1]).sort) else "int")
    return it.nd(Arr(x.shape, lambda *i: v, v.sort))


@model("numpy.ones_like")
def _(it, a, k):
    no_options(k, "dtype")
    x = it.arr(a[0])
    s = "int" if x.sort == "bool" else x.sort
    return it.nd(Arr(x.shape, lambda *i: lift(1, s), s))


@model("numpy.expand_dims")
def _(it, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    x = it.arr(a[0])
    if not isinstance(ax, int):
        raise Unsupported("expand_dims")
    ax %= x.ndim + 1
    return out(it, Arr(x.shape[:ax] + (1,) + x.shape[ax:], lambda *i: x.fn(*i[:ax], *i[ax + 1:]), x.sort), a[0])


@model("numpy.moveaxis")
def _(it, a, k):
    x = it.arr(a[0])
    src, dst = [b if isinstance(b, tuple) else (b,) for b in a[1:3]]
    src, dst = [s % x.ndim for s in src], [d % x.ndim for d in dst]
    order = [n for n in range(x.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return view_t(it, a[0], order)


@model("numpy.flip", "numpy.flipud", "numpy.fliplr")
def _flip(it, a, k):
    raise Unsupported("flip")


@model("functools.reduce")
def _(it, a, k):
    s = it.iter_seq(a[1])
    n = it.seq_len(s)
    if not isinstance(n, int):
        raise Unsupported("reduce over a symbolic number of items")
    items = [it.seq_get(s, j) for j in range(n)]
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = it.call(a[0], [acc, x], {})
    return acc


@model("map")
def _(it, a, k):
    if len(a) != 2:
        raise Unsupported("map over several sequences")
    s = it.iter_seq(a[1])
    n = it.seq_len(s)
    if isinstance(n, int):
        return it.lst([it.call(a[0], [it.seq_get(s, j)], {}) for j in range(n)])
    from . import loops
    f = Frame(None, None, {"#f": a[0], "#s": a[1]}, None)
    gen = ast.comprehension(target=ast.Name(id="#x", ctx=ast.Store()), iter=ast.Name(id="#s", ctx=ast.Load()), ifs=[], is_async=0)
    call = ast.Call(func=ast.Name(id="#f", ctx=ast.Load()), args=[ast.Name(id="#x", ctx=ast.Load())], keywords=[])
    e = ast.fix_missing_locations(ast.ListComp(elt=call, generators=[gen], lineno=0, col_offset=0))
    return loops.comprehension(it, e, f, "list")
