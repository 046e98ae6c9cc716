"""Common symbolic states and specifications."""
import os
import traceback
from contextlib import contextmanager

from pyded.expr import *
from pyded.values import *
from pyded.interp import Interp, Module, RaiseSig, PathDead
from pyded import models, nf

KRAUS = "PyQCodes/chan/_kraus.py"
CHOI = "PyQCodes/chan/_choi.py"
CHAN = "PyQCodes/chan/channel.py"
CODES = "PyQCodes/codes.py"
PARAM = "PyQCodes/chan/param.py"
COH = "PyQCodes/chan/_coherent.py"
OPT = "PyQCodes/_optimize.py"
FIND = "PyQCodes/find_codes.py"
DEV = "PyQCodes/device_adaptor.py"
AVG = "PyQCodes/avgfid/avg_fidelity.py"


@contextmanager
def given(it, *facts):
    """Obligations under further facts, which are forgotten afterwards."""
    old, it.ctx = it.ctx, it.ctx.clone()
    it.ctx.assume(and_(*facts))
    yield
    it.ctx = old


def between(lo, v, hi):
    return and_(le(lift(lo), v), lt(v, lift(hi)))


def ivar(it, name, lo=None, hi=None):
    v = var(name)
    if lo is not None:
        it.ctx.assume(le(lift(lo), v))
    if hi is not None:
        it.ctx.assume(lt(v, lift(hi)))
    return v


def dim(it, name):
    return ivar(it, name, 1)


def table(name, *shape, sort="cx"):
    """An arbitrary array of the given shape."""
    return Arr(shape, lambda *i: app(name, *[lift(x) for x in i], sort=sort), sort)


def bits(it, name, *shape):
    """An arbitrary array of bits."""
    return Arr(shape, lambda *i: ite(app("bit:" + name, *[lift(x) for x in i], sort="bool"), ic(1), ic(0)), "int")


def S(*pairs):
    """S((v, n), ..., body) nested sum"""
    body = pairs[-1]
    for v, n in reversed(pairs[:-1]):
        body = sum_(v, lift(n), body)
    return body


def idx(k):
    return [fresh("s") for _ in range(k)]


def cls(path, name):
    m = Module.get(path)
    return Cls(m, m.defs[name])


# ---------------------------------------------------------------- stabilizer codes
def construct(it, me, args, kwargs, contracts=()):
    """Run the real constructor on `me` with the other functions by contract; True if it has one accepting path (which is taken)."""
    kept, it.contracts = it.contracts, dict(it.contracts, **dict(contracts))
    done = list(it.obligations)
    try:
        paths = [p for p in it.explore(lambda: it.call(it.get_attr(me, "__init__"), list(args), dict(kwargs))) if not p.ctx.infeasible()]
    except Exception:
        if os.environ.get('PYDED_DEBUG'):
            traceback.print_exc()
        paths = []
    finally:
        it.contracts = kept
    paths = [p for p in paths if p.out[0] == "normal"]
    if len(paths) != 1:
        it.obligations[:] = done
        return False
    it.heap, it.ctx = paths[0].heap, paths[0].ctx
    return True


def code(it, r, n, k, tag="", stab=None, normal=None, rank=None, logicals=None, given=False, order=None, strings=None):
    """A code with r generators on n qubits: what the real constructor (P03) makes of generators that are accepted, with
    the normal form (P04), the derived logical operators (P05; given: those of the user) and the strings (P01) by
    contract.  What is not given is arbitrary."""
    two = mul(ic(2), n)
    table_ = lambda name, rows: it.nd(bits(it, tag + "code" + name, rows, two))
    if rank is None:
        rank = ivar(it, tag + "code.rank", 0)
        it.ctx.assume(le(rank, r))
    it.ctx.assume(and_(le(ic(1), r), eq(r, sub(n, k))))
    stab = table_("_stab_bin_rep", r) if stab is None else stab
    normal = table_("normal_form", r) if normal is None else normal
    logicals = (table_("_logical_x", k), table_("_logical_z", k)) if logicals is None else logicals
    if order is None:
        f = "perm:%sorder" % tag
        order = Lst(it.new(Seq("list", (Sub(n, lambda j: app(f, lift(j))),))))
        it.ctx.lemmas = dict(it.ctx.lemmas, **{f: lambda j: implies(and_(le(ic(0), j), lt(j, n)), between(0, app(f, j), n))})
    me = it.obj(cls(CODES, "StabilizerCode"))
    if strings is None:
        bit = lambda j, q: eq(lift(it.arr(stab).fn(lift(j), lift(q))), ic(1))
        strings = Lst(it.new(Seq("list", (Sub(r, lambda j: Seq("str", (Sub(n, lambda q: letter(bit(j, q), bit(j, add(n, lift(q))))),))),))))

    def normal_(it, f, args, kwargs):
        d = dict(it.heap[f.bound.ref])
        d["qubit_order"] = order
        it.heap[f.bound.ref] = d
        return (normal, rank)

    def string(it, f, args, kwargs):
        a = it.arr(it.bind(f, args, kwargs)["binary_rep"])
        bit = lambda q: eq(lift(a.fn(lift(q)), "int"), ic(1))
        return Seq("str", (Sub(n, lambda q: letter(bit(q), bit(add(n, lift(q))))),))
    own = {"inner_prod": lambda it, f, args, kwargs: ic(0), "_is_stabilizer_code": lambda it, f, args, kwargs: True,
           "_standard_normal_form": normal_, "logical_operators": lambda it, f, args, kwargs: tuple(logicals),
           "binary_rep_to_pauli_str": string}
    ok = construct(it, me, [stab, n, k], {"logical_ops": tuple(logicals)} if given else {},
                   {CODES + ":StabilizerCode." + name: h for name, h in own.items()})
    if not ok:
        it.heap[me.ref] = {"numb_stab": r, "dim_code_space": k, "_n": n, "_k": k, "_rank": rank, "_stab_bin_rep": stab,
                           "normal_form": normal, "_logical_x": logicals[0], "_logical_z": logicals[1], "qubit_order": order,
                           "_logical_order": Lst(it.new(Seq("list", (Sub(n, lambda j: j),)))) if given else order, "_pauli_stab": strings}
    return me


def letter(x, z):
    """The character of a pair of bits."""
    c = lambda s: ic(ord(s))
    return ite(x, ite(z, c("Y"), c("X")), ite(z, c("Z"), c("I")))


# ---------------------------------------------------------------- Kraus objects
def real_caches(it, obj):
    """The exchange tensor (and the adjoints) are what the real `_kraus_operators_exchange` makes of the operators in use,
    in whatever layout it keeps them.  False: there is no such method, the documented layout stays in place."""
    before = dict(it.heap[obj.ref])
    try:
        it.call(it.get_attr(obj, "_kraus_operators_exchange"), [before["current_n"]], {})
    except Exception:
        it.heap[obj.ref] = before
        return False
    return it.heap[obj.ref] != before


def kraus_state(it, sparse, f, orth=()):
    """What the real constructor makes, with the attributes f of the state reached since."""
    me = it.obj(cls(KRAUS, "SparseKraus" if sparse else "DenseKraus"))
    construct(it, me, [f["_kraus_ops"], f["_numb_qubits"], f["_dim_in"], f["_dim_out"]] + ([] if sparse else [orth]), {})
    it.heap[me.ref] = dict(it.heap[me.ref], **f)
    return me


class K:
    """A symbolic Kraus object in a state satisfying the class invariant for n copies."""

    def __init__(self, it, sparse, tag="", orth=(), n=None):
        self.it, self.sparse = it, sparse
        t = tag
        self.m, self.di, self.do = dim(it, "m" + t), dim(it, "di" + t), dim(it, "do" + t)
        self.q0, self.q1 = ivar(it, "q0" + t, 1), ivar(it, "q1" + t, 1)
        self.n = dim(it, "n" + t) if n is None else n
        pw = lambda a, b: app("pow", a, b)
        self.din, self.dout = pw(self.di, self.q0), pw(self.do, self.q1)
        it.ctx.assume(le(ic(1), self.din))
        it.ctx.assume(le(ic(1), self.dout))
        self.M = pw(self.m, self.n)                                    # n-fold sizes
        it.ctx.assume(le(ic(1), self.M))
        self.P, self.Q = dim(it, "P" + t), dim(it, "Q" + t)
        self.k1 = "K" + t
        self.kn = "Kn" + t
        sp = "COO" if sparse else False
        self.ops = table(self.k1, self.m, self.dout, self.din)
        self.nth = table(self.kn, self.M, self.P, self.Q)
        f = {"_kraus_ops": it.nd(self.ops, sparse=sp), "_nth_kraus_ops": it.nd(self.nth, sparse=sp),
             "_nth_kraus_exch": it.nd(self.exch_spec(), sparse=sp),
             "_nth_kraus_ops_conj": it.nd(self.conj_spec(), sparse=sp) if sparse else None,
             "numb_kraus": self.m, "_numb_qubits": it.lst([self.q0, self.q1]), "input_dim": self.din,
             "output_dim": self.dout, "_dim_in": self.di, "_dim_out": self.do, "current_n": self.n,
             "_shape": (self.din, self.dout)}
        if not sparse:
            f["_orthogonal_kraus"] = orth
        self.obj = kraus_state(it, sparse, f, orth)
        real_caches(it, self.obj)

    def Kn(self, a, i, j):
        return app(self.kn, lift(a), lift(i), lift(j), sort="cx")

    def conj_spec(self):
        return Arr((self.M, self.Q, self.P), lambda a, i, j: conj(self.Kn(a, j, i)), "cx")

    def exch_spec(self):
        def fn(a, b, k, l):
            p, = idx(1)
            return S((p, self.P), mul(conj(self.Kn(a, p, k)), self.Kn(b, p, l)))
        return Arr((self.M, self.M, self.Q, self.Q), fn, "cx")

    # ---- specifications
    def channel_spec(self, rho):
        """sum_a K_a rho K_a^H"""
        def fn(i, j):
            a, k, l = idx(3)
            return S((a, self.M), (k, self.Q), (l, self.Q), mul(self.Kn(a, i, k), rho(k, l), conj(self.Kn(a, j, l))))
        return Arr((self.P, self.P), fn, "cx")

    def adjoint_spec(self, x):
        """sum_a K_a^H X K_a"""
        def fn(i, j):
            a, k, l = idx(3)
            return S((a, self.M), (k, self.P), (l, self.P), mul(conj(self.Kn(a, k, i)), x(k, l), self.Kn(a, l, j)))
        return Arr((self.Q, self.Q), fn, "cx")

    def exchange_spec(self, rho):
        """W[i,j] = tr(K_i rho K_j^H)"""
        def fn(i, j):
            p, k, l = idx(3)
            return S((p, self.P), (k, self.Q), (l, self.Q), mul(self.Kn(i, p, k), rho(k, l), conj(self.Kn(j, p, l))))
        return Arr((self.M, self.M), fn, "cx")

    def exchange_adjoint_spec(self, x):
        """sum_ij x[i,j] K_i^H K_j"""
        def fn(k, l):
            i, j, p = idx(3)
            return S((i, self.M), (j, self.M), (p, self.P), mul(x(i, j), conj(self.Kn(i, p, k)), self.Kn(j, p, l)))
        return Arr((self.Q, self.Q), fn, "cx")


def f2(name):
    return lambda *i: app(name, *[lift(x) for x in i], sort="cx")


def analytic(it, kobj, kind="kraus", sparse=False):
    """The front end around the given representation, as its real constructor leaves it."""
    me = it.obj(cls(CHAN, "AnalyticQChan"))
    none = lambda it, f, args, kwargs: None
    yes = lambda it, f, args, kwargs: True
    inner = {}
    for path, names in ((KRAUS, ("Kraus", "DenseKraus", "SparseKraus")), (CHOI, ("ChoiQutip",))):
        for c in names:
            inner["%s:%s.__init__" % (path, c)] = none
            inner["%s:%s.is_trace_perserving" % (path, c)] = yes
    op = it.nd(table("operator", *[dim(it, "op%d" % j) for j in range(3 if kind == "kraus" else 2)]), sparse="COO" if sparse else False)
    d = {}
    if construct(it, me, [op, it.lst([1, 1]), 2, 2], {"sparse": sparse}, inner):
        d = dict(it.heap[me.ref])
    held = [x for x, v in d.items() if isinstance(v, Obj) and v.cls.name in ("DenseKraus", "SparseKraus", "ChoiQutip")]
    if len(held) != 1:
        d.update({"sparse": sparse, "_type": kind})
        held = ["krauss" if kind == "kraus" else "choi"]
    it.heap[me.ref] = dict(d, **{held[0]: kobj})
    return me


def returns(P, out):
    """The path must return; gives the value."""
    if out[0] == "normal":
        return True
    P.fail("returns normally", "%s %s on an accepted input" % (out[0], getattr(out[1], "name", "")))
    return False


def raises(P, out, exc, name="is rejected"):
    if out[0] == "raise" and (exc is None or out[1].name == exc):
        P.holds(name, TRUE)
        return True
    P.fail(name, "%s instead of %s" % (out[0] if out[0] != "raise" else out[1].name, exc or "an error"))
    return False


def gram_rule(name, summed, keep):
    """sum over the positions `summed` ({position: range}) of conj(A[..]) * A[..] is [keep position equal]:
    A = table `name` (isometry / trace-preserving precondition)."""
    def rule(nf, t):
        bare = [(j, a) for j, a in enumerate(t.atoms) if a.op == "app" and a.args[0] == name]
        cj = [(j, a) for j, a in enumerate(t.atoms) if a.op == "conj" and a.args[0].op == "app" and a.args[0].args[0] == name]
        bound = {v.args[0]: h for v, h in t.binders}
        for j, a in bare:
            for l, b in cj:
                b0 = b.args[0]
                vs = []
                for pos, rng in summed.items():
                    x, y = a.args[1 + pos], b0.args[1 + pos]
                    if x is not y or x.op != "var" or x.args[0] not in bound or \
                            not (bound[x.args[0]] is lift(rng) or nf.ctx.valid(eq(bound[x.args[0]], lift(rng)))):
                        break
                    vs.append(x.args[0])
                else:
                    rest = [x for i, x in enumerate(t.atoms) if i not in (j, l)]
                    if len(set(vs)) < len(vs):
                        continue
                    others = [x for i, x in enumerate(a.args[1:]) if i not in summed] + \
                             [x for i, x in enumerate(b0.args[1:]) if i not in summed]
                    if any(v in x.fv for v in vs for x in rest + others + list(t.guards) + [h for _, h in t.binders]):
                        continue
                    g = [eq(a.args[1 + p], b0.args[1 + p]) for p in keep]
                    from pyded.nf import Term
                    return [Term(t.c, [x for x in t.binders if x[0].args[0] not in vs], list(t.guards) + g, rest)]
        return None
    return rule


def operators(it, name, m, p, q, given):
    """m operators of size p x q given as a list of arrays, an array or a sparse array."""
    if given == "list":
        return Lst(it.new(Seq("list", (Sub(m, lambda j: it.nd(Arr((p, q), lambda a, b: app(name, lift(j), lift(a), lift(b), sort="cx"), "cx"))),))))
    return it.nd(table(name, m, p, q), sparse="COO" if given == "sparse" else False)


def kraus_action(m, p, q, entry, rho):
    """sum_a K_a rho K_a^H for the operators entry(a, i, j), m of size p x q."""
    def fn(i, j):
        a, k, l = idx(3)
        return S((a, m), (k, q), (l, q), mul(entry(a, i, k), rho(k, l), conj(entry(a, j, l))))
    return Arr((p, p), fn, "cx")


def seq_sum(it, s, f):
    """sum over the elements x of a sequence of f(x)"""
    tot = cc(0)
    for p in s.parts:
        if isinstance(p, Items):
            for x in p.vals:
                tot = add(tot, f(x))
        elif isinstance(p, Sub):
            k, = idx(1)
            tot = add(tot, S((k, p.n), f(p.fn(k))))
        elif isinstance(p, Loop):
            k, = idx(1)
            tot = add(tot, S((k, p.n), seq_sum(it, p.fn(k), f)))
        elif isinstance(p, If):
            tot = add(tot, ite(p.cond, seq_sum(it, p.a, f), seq_sum(it, p.b, f)))
        else:
            raise Unsupported("sum over %r" % (p,))
    return tot


def hermitian(name):
    """Every Hermitian matrix is H + H^H."""
    return lambda i, j: add(app(name, lift(i), lift(j), sort="cx"), conj(app(name, lift(j), lift(i), sort="cx")))


def delta(a, b):
    return ite(eq(lift(a), lift(b)), cc(1), cc(0))


def bind_init(it, c, obj, args, kwargs):
    """The arguments of a constructor call by name."""
    m = it.class_member(c, "__init__")
    return it.bind(Fn(m[0], None, m[1].mod, m[1], obj, "__init__"), args, kwargs)


def log(it, *entry):
    it.heap["CALLS"] = it.heap.get("CALLS", ()) + (entry,)


def calls(it, what=None):
    return [c for c in it.heap.get("CALLS", ()) if what is None or c[0] == what]


def same(it, a, b):
    """Same program value (identity for opaque values, equality for constants)."""
    if a is b:
        return True
    if isinstance(a, E) or isinstance(b, E):
        try:
            return it.ctx.valid(eq(lift(a), lift(b)))
        except Exception:
            return False
    if isinstance(a, (Nd, Lst)) and isinstance(b, type(a)):
        return a.ref == b.ref
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.ref == b.ref
    try:
        return type(a) == type(b) and a == b
    except Exception:
        return False


def is_sparse(x):
    return bool(x.sparse) if isinstance(x, Nd) else bool(x.attrs.get("sparse"))
