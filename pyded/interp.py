"""Symbolic interpreter of the Python subset used by PyQCodes (works on /repo's AST as it is)."""
import ast
import os

from .expr import *
from .solve import Ctx
from .values import *

REPO = os.environ.get("PYDED_REPO", "/repo")
UNROLL = 9


class Module:
    cache = {}

    def __init__(self, path):
        self.path = path
        self.src = open(os.path.join(REPO, path)).read()
        self.tree = ast.parse(self.src)
        for node in ast.walk(self.tree):
            for child in ast.iter_child_nodes(node):
                child.parent = node
        self.globals = {}
        self.defs = {}
        for node in self.tree.body:
            if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                self.defs[node.name] = node
            elif isinstance(node, ast.Import):
                for a in node.names:
                    self.globals[(a.asname or a.name).split(".")[0]] = Builtin(a.name if a.asname else a.name.split(".")[0])
            elif isinstance(node, ast.ImportFrom):
                for a in node.names:
                    self.globals[a.asname or a.name] = Builtin("%s.%s" % (node.module, a.name))
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = node

    @classmethod
    def get(cls, path):
        if path not in cls.cache:
            cls.cache[path] = cls(path)
        return cls.cache[path]


PKG = {"PyQCodes.codes": "PyQCodes/codes.py", "PyQCodes.chan._kraus": "PyQCodes/chan/_kraus.py",
       "PyQCodes.chan._choi": "PyQCodes/chan/_choi.py", "PyQCodes.chan.channel": "PyQCodes/chan/channel.py",
       "PyQCodes.chan.param": "PyQCodes/chan/param.py", "PyQCodes.chan._coherent": "PyQCodes/chan/_coherent.py",
       "PyQCodes._optimize": "PyQCodes/_optimize.py", "PyQCodes.find_codes": "PyQCodes/find_codes.py",
       "PyQCodes.device_adaptor": "PyQCodes/device_adaptor.py",
       "PyQCodes.avgfid.avg_fidelity": "PyQCodes/avgfid/avg_fidelity.py"}


ONESHOT = {"map", "zip", "enumerate", "reversed", "filter", "iter"}
CONSUMERS = ONESHOT | {"list", "tuple", "set", "frozenset", "dict", "sum", "any", "all", "sorted", "min", "max", "next", "sum"}
CONSUMING_METHODS = {"join", "extend", "update", "product", "chain", "from_iterable", "combinations", "permutations",
                     "islice", "accumulate", "fromiter", "starmap", "map", "fsum"}
LOOPS = (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.FunctionDef)


def consumed_once(node, depth=0):
    """An iterator (a generator, zip, map...) is modelled by the sequence it produces.  That is faithful where
    it is consumed once, where it is made: everything else is outside the verifier's reach."""
    p = getattr(node, "parent", None)
    if p is None or depth > 3:
        return p is None
    if isinstance(p, ast.keyword):
        return False
    if isinstance(p, (ast.For, ast.comprehension)):
        return node is p.iter
    if isinstance(p, ast.Starred):
        return True
    if isinstance(p, ast.Call):
        if node is p.func:
            return False
        if isinstance(p.func, ast.Name):
            return p.func.id in CONSUMERS
        return isinstance(p.func, ast.Attribute) and p.func.attr in CONSUMING_METHODS
    if isinstance(p, ast.Compare):
        return isinstance(p.ops[-1], (ast.In, ast.NotIn)) and node is p.comparators[-1] and len(p.ops) == 1
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and node is p.value:
        t = p.targets[0]
        if isinstance(t, (ast.Tuple, ast.List)):
            return True
        if not isinstance(t, ast.Name):
            return False
        f = p
        while f is not None and not isinstance(f, (ast.FunctionDef, ast.Lambda, ast.Module)):
            f = getattr(f, "parent", None)
        if f is None:
            return False
        loads = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == t.id and isinstance(n.ctx, ast.Load)]
        if len(loads) != 1:
            return False
        n = loads[0]
        above = set()
        q = p
        while q is not None:
            above.add(id(q))
            q = getattr(q, "parent", None)
        child, q = n, n.parent
        while q is not None and id(q) not in above:
            if isinstance(q, ast.comprehension) and child is not q.iter or isinstance(q, LOOPS) and not _first_iter(q, child):
                return False
            child, q = q, getattr(q, "parent", None)
        return consumed_once(n, depth + 1)
    return False


def _first_iter(loop, child):
    """child is evaluated once by the loop: the iterable of a for, or of the first clause of a comprehension"""
    if isinstance(loop, ast.For):
        return child is loop.iter
    return hasattr(loop, "generators") and child is loop.generators[0]


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class RaiseSig(Exception):
    """A Python exception raised by the code under verification."""

    def __init__(self, name, msg=""):
        self.name, self.msg = name, msg


class PathDead(Exception):
    """The path is infeasible."""


class NeedPre(Exception):
    def __init__(self, loc):
        self.loc = loc


class Frame:
    def __init__(self, mod, cls=None, env=None, parent=None):
        self.mod, self.cls, self.env, self.parent = mod, cls, env if env is not None else {}, parent


class Path:
    def __init__(self, decisions, facts, heap, env, ctx, out):
        self.decisions, self.facts, self.heap, self.env, self.ctx, self.out = decisions, facts, heap, env, ctx, out
        self.cond = and_(*decisions)


EXC = {"ValueError", "TypeError", "AssertionError", "RuntimeError", "IndexError", "KeyError", "NotImplementedError",
       "Exception", "AttributeError", "ZeroDivisionError"}


class Interp:
    def __init__(self):
        self.heap = {}
        self.nref = 0
        self.ctx = Ctx()
        # elementary: x ** e >= 1 for x >= 1, e >= 0
        self.ctx.lemmas["pow"] = lambda x, e: implies(and_(le(ic(1), x), le(ic(0), e)), le(ic(1), app("pow", x, e)))
        self.prefix, self.pos, self.work, self.dec = [], 0, None, []
        self.contracts = {}       # qualified name -> handler(interp, fn, args, kwargs)
        self.readonly = set()     # refs of shared objects that contracts forbid to change
        self.candidates = []      # callables (interp, loc, v0, n) -> list of (i -> value)
        self.invariants = []      # relational loop invariants
        self.obligations = []     # (name, status, why)
        self.inlined = set()
        self.trusted = set()
        self.depth = 0
        self.loop_log = []
        self.eigs = []            # (w symbol, V symbol, matrix Arr, n): uses of the assumed contract of eigh
        self.psd = set()
        self.eigs_qr = []
        self.sels = []            # selections by a boolean mask
        self.find_involutions = False
        self.involutions = []     # eigenvalue symbols of matrices shown to square to one
        self.cursite, self.promoted = None, set()
        self.bagdoms = {}
        self.skolems = {}         # names of values chosen during execution (random numbers, extrema, witnesses) -> sort
        self.while_specs = []     # invariants of while loops offered by a contract file
        self.externals = {}       # contracts of external functions offered by a contract file
        self.axioms = []          # rewriting rules assumed by a contract (make refutation by tables unsound)
        self.extra_rules = []     # rewriting rules that are lemmas
        self.assumed = set()
        self.top = None
        self.heap["TRACE"] = Seq("trace")
        self.heap["CTRL"] = ()

    def rules(self):
        r = list(self.axioms) + list(self.extra_rules)
        if self.sels:
            from . import models
            r.append(models.selection_rule(self))
            r.append(models.involution_rule(self))
        if self.eigs:
            from . import models
            r.append(models.spectral_rule(self))
        return r

    def declare_psd(self, a):
        """Precondition: the matrix is positive semidefinite."""
        from . import models
        self.psd.add(models.canonical_array_key(self, a)[0])

    def hermitian_obligation(self, a):
        from .nf import nf_zero
        i, j = fresh("k"), fresh("k")
        c = self.ctx.clone()
        for x, n in ((i, a.shape[0]), (j, a.shape[1])):
            c.assume(and_(le(ic(0), x), lt(x, lift(n))))
        if not nf_zero(c, sub(lift(a.fn(i, j), "cx"), conj(lift(a.fn(j, i), "cx"))), self.rules()):
            self.obligations.append(("argument of eigh is Hermitian", "unproved", "A - A^H is not provably zero"))
            raise Unsupported("eigh of a matrix that is not known to be Hermitian")
        self.obligations.append(("argument of eigh is Hermitian", "discharged", ""))

    def same_value(self, a, b, ctx, failed=None):
        """Provable equality of two scalars or arrays (shape and elements) under ctx; an equation that was not proved is
        put in failed."""
        failed = [] if failed is None else failed
        from .nf import nf_zero, TooBig
        try:
            if is_scalar(a) and is_scalar(b):
                a, b = lift(a), lift(b)
                failed.append((ctx, eq(a, b)))
                if "cx" in (a.sort, b.sort):
                    return nf_zero(ctx, sub(a, b), self.rules())
                return ctx.valid(eq(a, b))
            x, y = self.arr(a), self.arr(b)
            if x.ndim != y.ndim:
                return False
            c = ctx.clone()
            ks = []
            for p, q in zip(x.shape, y.shape):
                if not c.valid(eq(lift(p), lift(q))):
                    failed.append((c, eq(lift(p), lift(q))))
                    return False
                k = fresh("e")
                c.assume(and_(le(ic(0), k), lt(k, lift(q))))
                ks.append(k)
            d, e = lift(x.fn(*ks)), lift(y.fn(*ks))
            failed.append((c, eq(d, e)))
            if "cx" in (d.sort, e.sort):
                return nf_zero(c, sub(d, e), self.rules())
            return c.valid(eq(d, e))
        except (TooBig, TypeError):
            return False

    # ------------------------------------------------------------ heap
    def new(self, val):
        self.nref += 1
        r = "r%d" % self.nref
        self.heap[r] = val
        return r

    def nd(self, arr, sparse=False):
        return Nd(self.new(arr), sparse=sparse)

    def lst(self, items=()):
        return Lst(self.new(Seq("list", (Items(tuple(items)),) if items else ())))

    def seq(self, v):
        if isinstance(v, Lst):
            return self.heap[v.ref]
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq("tuple", (Items(v),))
        if isinstance(v, str):
            return Seq("str", (Items(tuple(ord(c) for c in v)),))
        raise Unsupported("not a sequence: %r" % (v,))

    def arr(self, v):
        """Current array value of v (reading through views)."""
        if isinstance(v, Arr):
            return v
        if isinstance(v, Nd):
            base = self.heap[v.ref]
            if v.imap is None:
                return base
            imap = v.imap
            return Arr(v.shape, lambda *i: base.fn(*imap(*i)), base.sort)
        if isinstance(v, (Lst, tuple)):
            return self.seq_to_arr(self.seq(v))
        if isinstance(v, Seq) and v.kind in ("list", "tuple"):
            return self.seq_to_arr(v)
        if is_scalar(v):
            e = lift(v)
            return Arr((), lambda: e, e.sort)
        raise Unsupported("not an array: %r" % (v,))

    as_arrays = False       # rows of a list that becomes an array may be lists and arrays

    def seq_to_arr(self, s):
        saved, self.as_arrays = self.as_arrays, True
        try:
            return self._seq_to_arr(s)
        finally:
            self.as_arrays = saved

    def _seq_to_arr(self, s):
        n = self.seq_len(s)
        # element shape from a representative element
        c = self.ctx.clone()
        if isinstance(n, int):
            if n == 0:
                return Arr((0,), lambda i: ic(0), "int")
            rep = self.seq_get(s, 0)
        else:
            k = fresh("k")
            saved, self.ctx = self.ctx, c
            c.assume(and_(le(ic(0), k), lt(k, lift(n))))
            try:
                rep = self.seq_get(s, k)
            finally:
                self.ctx = saved
        if is_scalar(rep):
            sort = lift(rep).sort
            if isinstance(n, int) and n <= 16:
                for i in range(n):
                    x = lift(self.seq_get(s, i)).sort
                    sort = "cx" if "cx" in (x, sort) else "int" if "int" in (x, sort) else sort
            return Arr((n,), lambda i: lift(self.seq_get(s, i), sort), sort)
        ra = self.arr(rep)
        for d in ra.shape:
            if not isinstance(n, int) and isinstance(d, E) and any(x in d.fv for x in [k.args[0]]):
                raise Unsupported("ragged list as an array")
        if isinstance(n, int):
            for i in range(1, n):
                oth = self.arr(self.seq_get(s, i))
                if not self.shape_eq(oth.shape, ra.shape):
                    raise Unsupported("ragged list as an array")

        heap = dict(self.heap)

        def fn(i, *rest):
            saved, self.heap = self.heap, dict(heap)
            flag, self.as_arrays = self.as_arrays, True
            try:
                return self.arr(self.seq_get(s, i)).fn(*rest)
            finally:
                self.heap, self.as_arrays = saved, flag
        return Arr((n,) + ra.shape, fn, ra.sort)

    def shape_eq(self, a, b):
        return len(a) == len(b) and all(x == y if isinstance(x, int) and isinstance(y, int) else
                                        self.ctx.valid(eq(lift(x), lift(y))) for x, y in zip(a, b))

    # ------------------------------------------------------------ sequences
    def part_len(self, p):
        if isinstance(p, Items):
            return len(p.vals)
        if isinstance(p, Sub):
            return p.n
        if isinstance(p, Loop):
            k = fresh("k")
            ln = lift(self.seq_len(p.fn(k)))
            if k.args[0] in ln.fv:
                return sum_(k, lift(p.n), ln)
            return D(mul(lift(p.n), ln))
        if isinstance(p, If):
            return D(ite(p.cond, lift(self.seq_len(p.a)), lift(self.seq_len(p.b))))
        if isinstance(p, Pre):
            return app("len:" + p.name)
        raise Unsupported("length of %r" % (p,))

    def seq_len(self, s):
        tot = 0
        for p in s.parts:
            ln = self.part_len(p)
            tot = tot + ln if isinstance(tot, int) and isinstance(ln, int) else D(add(lift(tot), lift(ln)))
        return tot

    def seq_get(self, s, k):
        k = D(k)
        if s.kind == "str":
            pass
        off = 0
        cands = []
        for j, p in enumerate(s.parts):
            ln = self.part_len(p)
            end = off + ln if isinstance(off, int) and isinstance(ln, int) else D(add(lift(off), lift(ln)))
            if isinstance(ln, int) and ln == 0:
                off = end
                if j < len(s.parts) - 1:
                    continue
                break
            inside = lt(lift(k), lift(end))
            last = j == len(s.parts) - 1
            if last or inside is TRUE or (inside is not FALSE and self.ctx.valid(inside)):
                cands.append((TRUE, p, off))
                break
            if inside is FALSE or self.ctx.valid(not_(inside)):
                off = end
                continue
            cands.append((inside, p, off))
            off = end
        if not cands:
            raise Unsupported("index into an empty sequence")
        val = None
        for cond, p, off in reversed(cands):
            rel = D(sub(lift(k), lift(off)))
            v = self.part_get(p, rel)
            val = v if val is None else self.merge(cond, v, val)
        return val

    def part_get(self, p, rel):
        if isinstance(p, Items):
            if isinstance(rel, int):
                if not 0 <= rel < len(p.vals):
                    raise Unsupported("index out of a concrete sequence")
                return p.vals[rel]
            val = p.vals[-1]
            for i in range(len(p.vals) - 2, -1, -1):
                val = self.merge(eq(lift(rel), ic(i)), p.vals[i], val)
            return val
        if isinstance(p, Sub):
            return p.fn(lift(rel))
        if isinstance(p, Loop):
            k = fresh("k")
            ln = lift(self.seq_len(p.fn(k)))
            if k.args[0] in ln.fv:
                raise Unsupported("index into a sequence of uneven blocks")
            q, r = self.ctx.divmod(lift(rel), ln)
            return self.seq_get(p.fn(q), r)
        if isinstance(p, If):
            return self.merge(p.cond, self.seq_get(p.a, rel), self.seq_get(p.b, rel))
        raise Unsupported("element of %r" % (p,))

    def seq_slice(self, s, lo, hi):
        """Elements lo..hi-1 (in range)."""
        lo, hi = D(lo), D(hi)
        if isinstance(lo, int) and isinstance(hi, int) and len(s.parts) == 1 and isinstance(s.parts[0], Items):
            return Seq(s.kind, (Items(s.parts[0].vals[lo:hi]),))
        n = D(sub(lift(hi), lift(lo)))
        if n == 0:
            return Seq(s.kind)
        return Seq(s.kind, (Sub(n, lambda k: self.seq_get(s, add(lift(lo), k))),))

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if is_scalar(a) and is_scalar(b):
            return ite(c, lift(a), lift(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (Nd, Arr)) and isinstance(b, (Nd, Arr)):
            x, y = self.arr(a), self.arr(b)
            if spflag(a) != spflag(b):
                raise Unsupported("merge of a dense and a sparse array")
            return self.nd(self.merge_arr(c, x, y), sparse=spflag(a))
        if isinstance(a, (Seq, str)) and isinstance(b, (Seq, str)):
            if isinstance(a, str) and a == b:
                return a
            x, y = self.seq(a), self.seq(b)
            return self.merge_seq(c, x, y)
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a.ref == b.ref:
                return a
            return Lst(self.new(self.merge_seq(c, self.heap[a.ref], self.heap[b.ref])))
        if isinstance(a, (str, type(None))) and a == b:
            return a
        if isinstance(a, Sp) and isinstance(b, Sp) and a.name == b.name == "fdict" and list(a.items) == list(b.items):
            return Sp("fdict", items={k: self.merge(c, a.items[k], b.items[k]) for k in a.items}, res=a.res and b.res)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.ref == b.ref:
            return a
        if self.as_arrays and isinstance(a, (Nd, Arr, Lst, Seq)) and isinstance(b, (Nd, Arr, Lst, Seq)):
            return self.merge(c, self.arr(a), self.arr(b))
        raise Unsupported("merge of %r and %r" % (a, b))

    def merge_arr(self, c, x, y):
        if not self.shape_eq(x.shape, y.shape):
            if len(x.shape) != len(y.shape):
                raise Unsupported("merge of arrays of different rank")
            shape = tuple(D(ite(c, lift(p), lift(q))) for p, q in zip(x.shape, y.shape))
        else:
            shape = x.shape
        return Arr(shape, lambda *i: ite(c, lift(x.fn(*i)), lift(y.fn(*i))), "cx" if "cx" in (x.sort, y.sort) else x.sort)

    def merge_seq(self, c, x, y):
        # common leading parts
        n = 0
        xp, yp = list(x.parts), list(y.parts)
        while n < len(xp) and n < len(yp) and (xp[n] is yp[n] or (isinstance(xp[n], Items) and isinstance(yp[n], Items)
                                               and len(xp[n].vals) == len(yp[n].vals) and
                                               all(p is q or (isinstance(p, (int, str)) and type(p) is type(q) and p == q)
                                                   for p, q in zip(xp[n].vals, yp[n].vals)))):
            n += 1
        xr, yr = Seq(x.kind, xp[n:]), Seq(y.kind, yp[n:])
        if not xr.parts and not yr.parts:
            return x
        if len(xr.parts) == 1 == len(yr.parts) and isinstance(xr.parts[0], Items) and isinstance(yr.parts[0], Items) \
                and len(xr.parts[0].vals) == len(yr.parts[0].vals):
            try:
                it = Items([self.merge(c, p, q) for p, q in zip(xr.parts[0].vals, yr.parts[0].vals)])
                return Seq(x.kind, tuple(xp[:n]) + (it,))
            except Unsupported:
                pass
        return Seq(x.kind, tuple(xp[:n]) + (If(c, xr, yr),))

    # ------------------------------------------------------------ path exploration
    def branch(self, cond):
        """True/False, forking the exploration if the facts leave both open."""
        if isinstance(cond, bool):
            return cond
        cond = lift(cond)
        if cond.sort != "bool":
            cond = ne(cond, lift(0, cond.sort))
        cond = self.ctx.simp(cond)
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
        else:
            if self.work is None:
                raise Unsupported("fork outside of an exploration")
            b = True
            self.work.append(self.prefix[:self.pos] + [False])
            self.prefix = self.prefix + [True]
        self.pos += 1
        c = cond if b else not_(cond)
        self.dec.append(c)
        self.ctx.assume(c)
        if c.depth and self.ctx.infeasible():
            raise PathDead()
        return b

    def explore(self, thunk, frame=None, limit=400):
        saved = (self.heap, self.ctx, self.nref, self.prefix, self.pos, self.work, self.dec,
                 frame.env if frame else None)
        out = []
        work = [[]]
        n = 0
        try:
            while work:
                n += 1
                if n > limit:
                    raise Unsupported("more than %d paths" % limit)
                pre = work.pop()
                self.heap = dict(saved[0])
                self.ctx = saved[1].clone()
                self.prefix, self.pos, self.work, self.dec = pre, 0, work, []
                if frame:
                    frame.env = dict(saved[7])
                n0 = len(self.ctx.facts)
                try:
                    r = ("normal", thunk())
                except PathDead:
                    continue
                except BreakSig:
                    r = ("break", None)
                except ContinueSig:
                    r = ("continue", None)
                except ReturnSig as e:
                    r = ("return", e.value)
                except RaiseSig as e:
                    r = ("raise", e)
                out.append(Path(list(self.dec), self.ctx.facts[n0:], self.heap, frame.env if frame else None,
                                self.ctx, r))
        finally:
            # references are never reused: lazily built elements of one path must not alias another object
            (self.heap, self.ctx, _, self.prefix, self.pos, self.work, self.dec) = saved[:7]
            if frame:
                frame.env = saved[7]
        return out

    def oblige(self, name, goal, why="", timeout=10):
        """An internal obligation (index in range, precondition of a callee, loop invariant)."""
        if goal is TRUE or self.ctx.valid(goal, timeout):
            self.obligations.append((name, "discharged", ""))
            return True
        raise Unsupported("%s not established: %s %s" % (name, lift(goal).key[:200], why))

    # ------------------------------------------------------------ modules, names
    def module(self, path):
        return Module.get(path)

    def find(self, qual):
        """'PyQCodes/codes.py:StabilizerCode.f' -> Fn"""
        path, name = qual.split(":")
        mod = Module.get(path)
        if "." in name:
            c, f = name.split(".")
            cls = Cls(mod, mod.defs[c])
            node = self.class_member(cls, f)
            if node is None:
                raise Unsupported("no function %s" % qual)
            return Fn(node[0], None, node[1].mod, node[1], None, name)
        if name not in mod.defs or not isinstance(mod.defs[name], ast.FunctionDef):
            raise Unsupported("no function %s" % qual)
        return Fn(mod.defs[name], None, mod, None, None, name)

    def bases(self, cls):
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                if b.id in cls.mod.defs and isinstance(cls.mod.defs[b.id], ast.ClassDef):
                    yield Cls(cls.mod, cls.mod.defs[b.id])
                else:
                    g = cls.mod.globals.get(b.id)
                    r = self.resolve_import(g) if isinstance(g, Builtin) else None
                    if isinstance(r, Cls):
                        yield r

    def class_member(self, cls, name):
        """(node, defining class)"""
        for n in cls.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                decos = [ast.unparse(d) for d in n.decorator_list]
                if any(d.endswith(".setter") for d in decos):
                    continue
                return n, cls
        for b in self.bases(cls):
            r = self.class_member(b, name)
            if r:
                return r
        return None

    def class_setter(self, cls, name):
        for n in cls.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name and \
                    any(ast.unparse(d).endswith(".setter") for d in n.decorator_list):
                return n, cls
        for b in self.bases(cls):
            r = self.class_setter(b, name)
            if r:
                return r
        return None

    def is_subclass(self, cls, name):
        return cls.name == name or any(self.is_subclass(b, name) for b in self.bases(cls))

    def resolve_import(self, b):
        from . import models
        if b.bound is None and b.name in models.CONSTS:
            return models.CONSTS[b.name]()
        """Names imported from the package itself become its functions and classes."""
        parts = b.name.split(".")
        for k in range(len(parts), 0, -1):
            m = ".".join(parts[:k])
            if m in PKG and k < len(parts):
                mod = Module.get(PKG[m])
                d = mod.defs.get(parts[k])
                if isinstance(d, ast.ClassDef):
                    return Cls(mod, d)
                if isinstance(d, ast.FunctionDef):
                    return Fn(d, None, mod, None, None, parts[k])
        return b

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v is POISON:
                    raise NeedPre(("env", name))
                if isinstance(v, Opaque) and v.name == "maybe-unbound":
                    raise Unsupported("possibly unbound variable " + name)
                return v
            f = f.parent
        mod = frame.mod
        if name in mod.globals:
            v = mod.globals[name]
            return self.resolve_import(v) if isinstance(v, Builtin) else v
        d = mod.defs.get(name)
        if isinstance(d, ast.FunctionDef):
            return Fn(d, None, mod, None, None, name)
        if isinstance(d, ast.ClassDef):
            return Cls(mod, d)
        if isinstance(d, ast.Assign):
            if (mod.path, name) in self.global_cache():
                return self.global_cache()[(mod.path, name)]
            fr = Frame(mod)
            self.exec_assign(d, fr)
            for k, v in fr.env.items():
                self.global_cache()[(mod.path, k)] = self.freeze(v)
            return self.global_cache()[(mod.path, name)]
        import builtins
        if hasattr(builtins, name):
            return Builtin(name)
        raise Unsupported("unknown name " + name)

    def global_cache(self):
        if not hasattr(self, "_globals"):
            self._globals = {}
        return self._globals

    def freeze(self, v):
        """Module-level values outlive the path they were computed on (treated as immutable)."""
        if isinstance(v, Nd):
            return Arr(self.arr(v).shape, self.arr(v).fn, self.arr(v).sort, attrs={"sparse": v.sparse})
        if isinstance(v, Lst):
            s = self.seq(v)
            return Seq("list", s.parts)
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, frame):
        for s in stmts:
            self.exec(s, frame)

    def exec(self, s, frame):
        t = type(s).__name__
        m = getattr(self, "s_" + t, None)
        if m is None:
            raise Unsupported("statement %s at line %d" % (t, s.lineno))
        return m(s, frame)

    def s_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "print":
            return
        if isinstance(s.value, (ast.Yield,)):
            self.heap["YIELD"] = self.heap["YIELD"].append([self.eval(s.value.value, frame)])
            return
        self.eval(s.value, frame)

    def s_Pass(self, s, frame):
        pass

    def s_Import(self, s, frame):
        for a in s.names:
            frame.env[(a.asname or a.name).split(".")[0]] = Builtin(a.name)

    def s_Return(self, s, frame):
        raise ReturnSig(self.eval(s.value, frame) if s.value else None)

    def s_Break(self, s, frame):
        raise BreakSig()

    def s_Continue(self, s, frame):
        raise ContinueSig()

    def s_Raise(self, s, frame):
        e = s.exc
        if e is None:
            if not self.handling:
                raise Unsupported("raise without an exception")
            raise RaiseSig(self.handling[-1])
        name = e.func if isinstance(e, ast.Call) else e
        raise RaiseSig(ast.unparse(name).split(".")[-1] if name is not None else "Exception")

    def s_Assert(self, s, frame):
        if not self.branch(self.truth(self.eval(s.test, frame))):
            raise RaiseSig("AssertionError")

    CAUGHT = {"KeyError": ("KeyError",), "IndexError": ("IndexError",), "AssertionError": ("AssertionError",),
              "StopIteration": ("StopIteration",), "LookupError": ("KeyError", "IndexError"),
              "ZeroDivisionError": ("ZeroDivisionError",)}

    handling = ()

    def s_Try(self, s, frame):
        """Handlers of the exceptions that the semantics raises itself; others have to leave the statement."""
        names = []
        for h in s.handlers:
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            if h.name is not None or any(not isinstance(t, ast.Name) or t.id not in self.CAUGHT for t in ts):
                raise Unsupported("handler for %s" % (ast.unparse(h.type) if h.type is not None else "any exception"))
            names.append({x for t in ts for x in self.CAUGHT[t.id]})
        try:
            try:
                self.exec_block(s.body, frame)
            except RaiseSig as e:
                for h, ns in zip(s.handlers, names):
                    if e.name in ns:
                        saved, self.handling = self.handling, self.handling + (e.name,)
                        try:
                            self.exec_block(h.body, frame)
                        finally:
                            self.handling = saved
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, frame)
        except (RaiseSig, ReturnSig, BreakSig, ContinueSig):
            self.exec_block(s.finalbody, frame)
            raise
        self.exec_block(s.finalbody, frame)

    def s_If(self, s, frame):
        if self.branch(self.truth(self.eval(s.test, frame))):
            self.exec_block(s.body, frame)
        else:
            self.exec_block(s.orelse, frame)

    def s_FunctionDef(self, s, frame):
        frame.env[s.name] = Fn(s, frame, frame.mod, frame.cls, None, s.name)

    def s_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                frame.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.del_item(self.eval(t.value, frame), t.slice, frame)
            else:
                raise Unsupported("del")

    def del_item(self, c, sl, frame):
        if not isinstance(c, Lst) or not isinstance(sl, ast.Slice) or sl.step is not None:
            raise Unsupported("del of an element")
        s = self.heap[c.ref]
        n = self.seq_len(s)
        lo = self.slice_bound(sl.lower, 0, n, frame)
        hi = self.slice_bound(sl.upper, n, n, frame)
        self.heap[c.ref] = self.seq_slice(s, 0, lo).concat(self.seq_slice(s, hi, n))

    def s_With(self, s, frame):
        outer = self.heap["CTRL"]
        for item in s.items:
            v = self.eval(item.context_expr, frame)
            if isinstance(v, Sp) and v.name == "Control":
                self.heap["CTRL"] = self.heap["CTRL"] + tuple(v.qubits)
            elif isinstance(v, Sp) and v.name == "nullcontext":
                pass
            else:
                raise Unsupported("with %s" % ast.unparse(item.context_expr))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, frame)
        try:
            self.exec_block(s.body, frame)
        finally:
            self.heap["CTRL"] = outer

    def s_Assign(self, s, frame):
        self.exec_assign(s, frame)

    def exec_assign(self, s, frame):
        v = self.eval(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def s_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def s_AugAssign(self, s, frame):
        t = s.target
        load = ast.copy_location(_load(t), t)
        cur = self.eval(load, frame)
        val = self.eval(s.value, frame)
        if isinstance(cur, Lst) and isinstance(s.op, ast.Add):
            self.heap[cur.ref] = self.heap[cur.ref].concat(self.iter_seq(val))
            return
        if isinstance(cur, Nd) and isinstance(t, ast.Name):
            # in place on the array
            new = self.arr(self.binop(s.op, cur, val))
            self.store_all(cur, new)
            return
        self.assign(t, self.binop(s.op, cur, val), frame)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            frame.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, frame)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.eval(t.value, frame), t.slice, v, frame)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred assignment")
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise Unsupported("unpacking %d values into %d" % (len(v), n))
            return v
        if isinstance(v, (Lst, Seq, str)):
            s = self.seq(v)
            ln = self.seq_len(s)
            self.oblige("number of values to unpack", eq(lift(ln), ic(n)))
            return [self.wrap_item(s, self.seq_get(s, i)) for i in range(n)]
        if isinstance(v, (Nd, Arr)):
            a = self.arr(v)
            self.oblige("number of values to unpack", eq(lift(a.shape[0]), ic(n)))
            return [self.index(v, (i,)) for i in range(n)]
        if isinstance(v, Opaque) and v.attrs.get("unpack"):
            return v.attrs["unpack"](n)
        raise Unsupported("unpacking %r" % (v,))

    def s_For(self, s, frame):
        from . import loops
        loops.exec_for(self, s, frame)

    def s_While(self, s, frame):
        for spec in self.while_specs:
            if spec(self, s, frame):
                return
        for _ in range(UNROLL):
            if not self.branch(self.truth(self.eval(s.test, frame))):
                return self.exec_block(s.orelse, frame)
            try:
                self.exec_block(s.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                pass
        raise Unsupported("while loop")


    def s_Global(self, s, frame):
        raise Unsupported("global")

    # ------------------------------------------------------------ expressions
    def eval(self, e, frame):
        t = type(e).__name__
        m = getattr(self, "e_" + t, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (t, getattr(e, "lineno", "?")))
        return m(e, frame)

    def e_Constant(self, e, frame):
        return e.value

    def e_Name(self, e, frame):
        return self.lookup(e.id, frame)

    def e_Tuple(self, e, frame):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += list(self.concrete_items(self.eval(x.value, frame)))
            else:
                out.append(self.eval(x, frame))
        return tuple(out)

    def e_List(self, e, frame):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            from . import models
            r = Seq("list")
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    r = r.concat(models.plain(self, self.iter_seq(self.eval(x.value, frame))))
                else:
                    r = r.append([self.eval(x, frame)])
            return Lst(self.new(r))
        return self.lst(self.e_Tuple(e, frame))

    def e_Dict(self, e, frame):
        d = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                sub_ = self.eval(v, frame)
                if not (isinstance(sub_, Sp) and sub_.name == "dict"):
                    raise Unsupported("** of %r" % (sub_,))
                d += list(self.heap[sub_.ref].items())
            else:
                d.append((self.eval(k, frame), self.eval(v, frame)))
        return self.new_dict(dict(d))

    def new_dict(self, d, res=False):
        """res: a result object whose entries are attributes too (scipy.optimize.OptimizeResult)"""
        return Sp("dict", ref=self.new(dict(d)), res=res)

    def e_JoinedStr(self, e, frame):
        v = ""
        for x in e.values:
            if isinstance(x, ast.Constant):
                y = x.value
            elif x.format_spec is None and x.conversion in (-1, 115):
                y = self.call_builtin("str", [self.eval(x.value, frame)], {})
            else:
                return Opaque("string")
            if not isinstance(y, (str, Sp)) or isinstance(y, Sp) and y.name != "strint":
                return Opaque("string")
            try:
                v = self.binop(ast.Add(), v, y) if v != "" else y
            except Unsupported:
                return Opaque("string")
        return v

    def e_Lambda(self, e, frame):
        return Fn(e, frame, frame.mod, frame.cls, None, "<lambda>")

    def e_IfExp(self, e, frame):
        c = self.truth(self.eval(e.test, frame))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, frame)
        if self.branch(c):
            return self.eval(e.body, frame)
        return self.eval(e.orelse, frame)

    def e_BoolOp(self, e, frame):
        """Short circuit; the value is only used as a truth value."""
        isand = isinstance(e.op, ast.And)
        acc = []
        saved = self.ctx
        try:
            for x in e.values:
                v = self.eval(x, frame)
                if not isand and len(acc) == 0 and not is_scalar(v) and x is not e.values[-1] and not isinstance(v, E):
                    t = self.truth(v)
                    if t is True:
                        return v
                    if t is False:
                        continue
                c = self.truth(v)
                if isinstance(c, bool):
                    if c != isand:
                        return c if not acc else (and_(*acc, lift(c)) if isand else or_(*acc, lift(c)))
                    if x is e.values[-1] and not acc:
                        return v
                    continue
                acc.append(c)
                self.ctx = self.ctx.clone()
                self.ctx.assume(c if isand else not_(c))
        finally:
            # facts learned while evaluating (forks) stay on the outer context
            extra = [f for f in self.ctx.facts if f not in saved.facts and f not in acc and not_(f) not in acc]
            self.ctx = saved
            for f in extra:
                if f in self.dec:
                    self.ctx.assume(f)
        if not acc:
            return isand
        return and_(*acc) if isand else or_(*acc)

    def e_UnaryOp(self, e, frame):
        v = self.eval(e.operand, frame)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else not_(c)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float, complex)):
                return -v
            if isinstance(v, E):
                return neg(v)
            if isinstance(v, Sp) and v.name == "bag":
                from . import models
                return models.bag_map(self, neg, v)
            a = self.arr(v)
            return self.nd(Arr(a.shape, lambda *i: neg(lift(a.fn(*i))), a.sort))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Sp) and v.name == "bag":
                from . import models
                return models.bag_map(self, not_, v)
            if isinstance(v, (Nd, Arr)):
                a = self.arr(v)
                return self.nd(Arr(a.shape, lambda *i: not_(lift(a.fn(*i))), "bool"))
        raise Unsupported("unary operator")

    def e_BinOp(self, e, frame):
        a = self.eval(e.left, frame)
        if isinstance(e.op, ast.BitOr) and self.is_gate(a):
            self.apply_gate(a, self.eval(e.right, frame))
            return None
        return self.binop(e.op, a, self.eval(e.right, frame))

    def e_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, frame)
            acc.append(self.compare(op, left, right))
            left = right
        if len(acc) == 1:
            return acc[0]
        if all(isinstance(x, bool) for x in acc):
            return all(acc)
        return and_(*[lift(x) for x in acc])

    def e_Subscript(self, e, frame):
        c = self.eval(e.value, frame)
        return self.get_item(c, e.slice, frame)

    def e_Attribute(self, e, frame):
        return self.get_attr(self.eval(e.value, frame), e.attr)

    def e_Starred(self, e, frame):
        raise Unsupported("starred")

    def e_ListComp(self, e, frame):
        from . import loops
        return loops.comprehension(self, e, frame, "list")

    def e_GeneratorExp(self, e, frame):
        from . import loops
        if not consumed_once(e):
            raise Unsupported("a generator that is kept")
        return loops.comprehension(self, e, frame, "list")

    def e_SetComp(self, e, frame):
        from . import loops
        return loops.set_comprehension(self, e, frame)

    def e_Set(self, e, frame):
        return Sp("set", items=self.e_Tuple(e, frame))

    def e_Slice(self, e, frame):
        raise Unsupported("slice value")

    # ------------------------------------------------------------ truth, comparison, arithmetic
    def truth(self, v):
        if isinstance(v, (bool, int, float, complex)):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, E):
            if v.sort == "bool":
                return True if v is TRUE else False if v is FALSE else v
            r = ne(v, lift(0, v.sort))
            return True if r is TRUE else False if r is FALSE else r
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (tuple, Lst, Seq)):
            n = self.seq_len(self.seq(v))
            return bool(n) if isinstance(n, int) else lt(ic(0), n)
        if isinstance(v, Sp) and v.name == "dict":
            return bool(self.heap[v.ref])
        if isinstance(v, (Nd, Arr)):
            a = self.arr(v)
            if a.ndim == 0 or all(s == 1 for s in a.shape):
                return self.truth(a.fn(*[ic(0)] * a.ndim))
        if isinstance(v, (Fn, Cls, Obj, Builtin)):
            return True
        raise Unsupported("truth value of %r" % (v,))

    def compare(self, op, a, b):
        t = type(op).__name__
        if t in ("Is", "IsNot"):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, E) or isinstance(b, E):
                    x, y = (a, b) if isinstance(a, E) else (b, a)
                    if x.sort == "bool" and isinstance(y, bool):
                        r = eq(x, lift(y))
                        return r if t == "Is" else not_(r)
                r = a is b
                return r if t == "Is" else not r
            if isinstance(a, (Cls, Fn, Obj, Lst, Nd, Builtin)) and isinstance(b, (Cls, Fn, Obj, Lst, Nd, Builtin)):
                r = self.same_ref(a, b)
                return r if t == "Is" else not r
            raise Unsupported("is")
        if t in ("In", "NotIn"):
            r = self.contains(b, a)
            if t == "In":
                return r
            return (not r) if isinstance(r, bool) else not_(r)
        if isinstance(a, Sp) and a.name == "bag" or isinstance(b, Sp) and b.name == "bag":
            from . import models
            return models.bag_map(self, lambda x, y: self.cmp(t, x, y), a, b)
        if isinstance(a, (Nd, Arr)) or isinstance(b, (Nd, Arr)):
            x, y, shape = self.broadcast(a, b)
            return self.nd(Arr(shape, lambda *i: lift(self.cmp(t, x(*i), y(*i))), "bool"))
        return self.cmp(t, a, b)

    def same_ref(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, Cls):
            return a.name == b.name and a.mod is b.mod
        if isinstance(a, Builtin):
            return a.name == b.name
        if isinstance(a, Fn):
            return a.node is b.node
        return a.ref == b.ref

    def cmp(self, t, a, b):
        for x in (a, b):
            if isinstance(x, Opaque) and "#cmp" in x.attrs:
                return x.attrs["#cmp"](self, t, a, b)
        if isinstance(a, (str, Seq)) and isinstance(b, (str, Seq)) and t in ("Eq", "NotEq"):
            if isinstance(a, str) and isinstance(b, str):
                return (a == b) if t == "Eq" else (a != b)
            r = self.str_eq(self.seq(a), self.seq(b))
            return r if t == "Eq" else not_(r)
        if isinstance(a, (tuple, Lst)) and isinstance(b, (tuple, Lst)) and t in ("Eq", "NotEq"):
            x, y = self.seq(a), self.seq(b)
            n, m = self.seq_len(x), self.seq_len(y)
            if isinstance(n, int) and isinstance(m, int):
                if n != m:
                    return t != "Eq"
                r = [self.compare(ast.Eq(), self.seq_get(x, i), self.seq_get(y, i)) for i in range(n)]
                r = and_(*[lift(q) for q in r])
                return r if t == "Eq" else not_(r)
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, E) and not isinstance(b, E):
                return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b,
                        "Gt": lambda: a > b, "GtE": lambda: a >= b}[t]()
            x, y = lift(a), lift(b)
            return {"Eq": lambda: eq(x, y), "NotEq": lambda: ne(x, y), "Lt": lambda: lt(x, y), "LtE": lambda: le(x, y),
                    "Gt": lambda: lt(y, x), "GtE": lambda: le(y, x)}[t]()
        if t in ("Eq", "NotEq") and (type(a) in (str, type(None), Opaque, Builtin) or type(b) in (str, type(None), Opaque, Builtin)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                if a is b:
                    return t == "Eq"
                if isinstance(a, Opaque) and isinstance(b, Opaque) or isinstance(a, str) or isinstance(b, str):
                    raise Unsupported("comparison of opaque values")
            r = a == b if type(a) is type(b) else False
            return r if t == "Eq" else not r
        raise Unsupported("comparison %s of %r and %r" % (t, a, b))

    def some_element(self, s, x):
        """x equals some element of the sequence (membership in a set or sequence)."""
        rs = []
        for p in s.parts:
            if isinstance(p, Items):
                rs += [lift(self.compare(ast.Eq(), x, y)) for y in p.vals]
            elif isinstance(p, (Sub, Loop)):
                k = fresh("m")
                c = self.ctx
                self.ctx = c.clone()
                self.ctx.assume(and_(le(ic(0), k), lt(k, lift(p.n))))
                try:
                    y = p.fn(k)
                    b = self.some_element(y, x) if isinstance(p, Loop) else lift(self.compare(ast.Eq(), x, self.wrap_item(s, y)))
                finally:
                    self.ctx = c
                rs.append(exists(k, p.n, b))
            elif isinstance(p, If):
                rs.append(ite(p.cond, self.some_element(p.a, x), self.some_element(p.b, x)))
            else:
                raise Unsupported("membership in %r" % (p,))
        return or_(*rs) if rs else FALSE

    def str_eq(self, x, y):
        n, m = self.seq_len(x), self.seq_len(y)
        if isinstance(n, int) and isinstance(m, int):
            if n != m:
                return FALSE
            return and_(*[eq(lift(self.seq_get(x, i)), lift(self.seq_get(y, i))) for i in range(n)])
        if isinstance(n, int) or isinstance(m, int):
            k = n if isinstance(n, int) else m
            return and_(eq(lift(n), lift(m)), *[eq(lift(self.seq_get(x, i)), lift(self.seq_get(y, i))) for i in range(k)])
        if all(len(q.parts) == 1 and isinstance(q.parts[0], Sub) for q in (x, y)):
            k = fresh("p")
            e = self.compare(ast.Eq(), self.seq_get(x, k), self.seq_get(y, k))
            return and_(eq(lift(n), lift(m)), forall(k, n, lift(e)))
        raise Unsupported("comparison of symbolic strings")

    def contains(self, c, x):
        if isinstance(c, Sp) and c.name == "set":
            if hasattr(c, "member"):
                return c.member(x)
            rs = [self.compare(ast.Eq(), x, y) for y in c.items]
            return or_(*[lift(r) for r in rs])
        if isinstance(c, Sp) and c.name == "dict":
            rs = [self.key_eq(y, x) for y in self.heap[c.ref]]
            if any(r is True or r is TRUE for r in rs):
                return True
            rs = [lift(r) for r in rs if r is not False and r is not FALSE]
            return or_(*rs) if rs else False
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Sp) and c.name == "range":
            return and_(le(lift(c.lo), lift(x)), lt(lift(x), lift(c.hi))) if c.step == 1 else self._bad("in range")
        s = self.seq(c)
        n = self.seq_len(s)
        if not isinstance(n, int):
            raise Unsupported("membership in a symbolic sequence")
        rs = []
        for i in range(n):
            y = self.wrap_item(s, self.seq_get(s, i))
            r = self.compare(ast.Eq(), x, y)
            if r is True:
                return True
            if r is not False:
                rs.append(lift(r))
        return or_(*rs) if rs else False

    def key_eq(self, a, b):
        """Two dictionary keys are equal (True / False / a symbolic condition)."""
        if a is b:
            return True
        if isinstance(a, (Seq, str)) != isinstance(b, (Seq, str)) or isinstance(a, tuple) != isinstance(b, tuple) \
                or (a is None) != (b is None):
            if any(isinstance(v, (Lst, Nd, Arr, Sp, Opaque)) for v in (a, b)):
                raise Unsupported("dictionary key %r" % (b,))
            return False
        if isinstance(a, tuple):
            if len(a) != len(b):
                return False
            rs = [self.key_eq(x, y) for x, y in zip(a, b)]
            if any(r is False or r is FALSE for r in rs):
                return False
            return True if all(r is True for r in rs) else and_(*[lift(r) for r in rs])
        if isinstance(a, (Cls, Fn, Builtin, Obj)) or isinstance(b, (Cls, Fn, Builtin, Obj)):
            return self.same_ref(a, b)
        r = self.cmp("Eq", a, b)
        return True if r is TRUE else False if r is FALSE else r

    def dict_lookup(self, c, k, default=None):
        """(found, value) for a key; symbolic keys are merged where the values merge, else the paths fork."""
        d = self.heap[c.ref]
        hits = []
        for y in d:
            r = self.key_eq(y, k)
            if isinstance(r, E):
                r = self.ctx.simp(r)
            if r is True or r is TRUE:
                return True, d[y]
            if r is not False and r is not FALSE:
                hits.append((r, y))
        if not hits:
            return False, default
        if self.ctx.valid(or_(*[lift(r) for r, _ in hits])) and all(
                isinstance(d[y], (str, Seq, E, int, float, complex, bool)) for _, y in hits):
            saved = dict(self.heap)
            try:
                v = d[hits[-1][1]]
                for r, y in reversed(hits[:-1]):
                    v = self.merge(lift(r), d[y], v)
                return True, v
            except Unsupported:
                self.heap = saved
        for r, y in hits:
            if self.branch(r):
                return True, d[y]
        return False, default

    def _bad(self, what):
        raise Unsupported(what)

    def broadcast(self, a, b):
        x, y = self.arr(a), self.arr(b)
        n = max(x.ndim, y.ndim)
        sx = (1,) * (n - x.ndim) + x.shape
        sy = (1,) * (n - y.ndim) + y.shape
        shape, fx, fy = [], [], []
        for p, q in zip(sx, sy):
            if p == 1 and q != 1:
                shape.append(q)
                fx.append(False)
                fy.append(True)
            elif q == 1 and p != 1:
                shape.append(p)
                fx.append(True)
                fy.append(False)
            else:
                if not (p == q or self.ctx.valid(eq(lift(p), lift(q)))):
                    raise Unsupported("shapes %s and %s are not known to match" % (sx, sy))
                shape.append(p)
                fx.append(True)
                fy.append(True)

        def get(arr, keep, pad):
            return lambda *i: arr.fn(*[j if k else ic(0) for j, k in list(zip(i, keep))[pad:]])
        return get(x, fx, n - x.ndim), get(y, fy, n - y.ndim), tuple(shape)

    def binop(self, op, a, b):
        t = type(op).__name__
        for x in (a, b):
            if isinstance(x, Opaque) and "#binop" in x.attrs:
                return x.attrs["#binop"](self, t, a, b)
        if is_scalar(a) and is_scalar(b):
            return self.arith(t, a, b)
        if t == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, Seq)) and isinstance(b, (str, Seq)):
                return self.seq(a).concat(self.seq(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Lst) and isinstance(b, Lst):
                return Lst(self.new(self.heap[a.ref].concat(self.heap[b.ref])))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sp) and x.name == "strint" and isinstance(y, str):
                    if x is a:
                        return self._str_after(x, y)
                    return Sp("strint", value=x.value, prefix=y + getattr(x, "prefix", ""))
            if isinstance(a, Opaque) and a.name == "string" or isinstance(b, Opaque) and b.name == "string":
                return Opaque("string")
        if t == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Lst, tuple, str, Seq)) and is_scalar(y):
                    return self.repeat(x, y)
        if t == "Mod" and isinstance(a, str):
            if a[-2:] in ("%d", "%s", "%i") and a.count("%") == 1 and is_scalar(b):
                x = self.call_builtin("str", [b], {})
                if isinstance(x, (str, Sp)):
                    return self.binop(ast.Add(), a[:-2], x)
            return Opaque("string")
        if isinstance(a, Sp) and a.name == "bag" or isinstance(b, Sp) and b.name == "bag":
            from . import models
            return models.bag_map(self, lambda x, y: self.arith(t, x, y), a, b)
        if t == "MatMult":
            from . import models
            return models.matmul(self, a, b)
        if isinstance(a, (Nd, Arr)) or isinstance(b, (Nd, Arr)):
            sps = [f for f in (spflag(v) for v in (a, b)) if f]
            if sps and not all(isinstance(v, (Nd, Arr)) or is_scalar(v) for v in (a, b)):
                raise Unsupported("sparse array with another sequence")
            if t in ("Mult", "Pow") and "COO" not in sps and sps and not (is_scalar(a) or is_scalar(b)):
                if t == "Pow":
                    raise Unsupported("power of a sparse matrix")
                from . import models
                return models.matmul(self, a, b)   # scipy.sparse matrices: * is the product
            x, y, shape = self.broadcast(a, b)
            sort = "cx" if "cx" in (self.arr(a).sort, self.arr(b).sort) or t == "Div" else "int"
            sp = sps[0] if sps else False
            return self.nd(Arr(shape, lambda *i: lift(self.arith(t, x(*i), y(*i)), sort), sort), sparse=sp)
        if isinstance(a, Obj):
            name = {"Add": "__add__", "Mult": "__mul__", "Sub": "__sub__"}.get(t)
            m = self.class_member(a.cls, name) if name else None
            if m:
                return self.call(Fn(m[0], None, m[1].mod, m[1], a, name), [b], {})
        raise Unsupported("%s of %r and %r" % (t, a, b))

    def _str_after(self, x, y):
        if not y:
            return x
        return Opaque("string")

    def repeat(self, x, k):
        s = self.seq(x)
        n = self.seq_len(s)
        k = D(k)
        if isinstance(k, int) and isinstance(n, int):
            r = Seq(s.kind)
            for _ in range(k):
                r = r.concat(s)
        else:
            kk = lift(k)
            if not self.ctx.valid(le(ic(0), kk)):
                kk = ite(lt(kk, ic(0)), ic(0), kk)
            r = Seq(s.kind, (Loop(kk, lambda i: s),)) if n != 1 else \
                Seq(s.kind, (Sub(kk, lambda i: self.seq_get(s, 0)),))
        return Lst(self.new(r)) if s.kind == "list" else r

    def arith(self, t, a, b):
        if not isinstance(a, E) and not isinstance(b, E):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: self.cdiv(a, b),
                        "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b,
                        "BitXor": lambda: a ^ b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b}[t]()
            except ZeroDivisionError:
                raise RaiseSig("ZeroDivisionError")
            except KeyError:
                raise Unsupported("operator " + t)
        x, y = lift(a), lift(b)
        if t in ("BitAnd", "BitOr", "BitXor") and x.sort == "bool" and y.sort == "bool":
            return {"BitAnd": and_, "BitOr": or_}[t](x, y) if t != "BitXor" else ne(x, y)
        if x.sort == "bool":
            x = lift(x, "int")
        if y.sort == "bool":
            y = lift(y, "int")
        if t == "Add":
            return add(x, y)
        if t == "Sub":
            return sub(x, y)
        if t == "Mult":
            return mul(x, y)
        if t in ("FloorDiv", "Mod"):
            if x.sort != "int" or y.sort != "int":
                raise Unsupported("// or % of non-integers")
            if const_of(y) == 0:
                raise RaiseSig("ZeroDivisionError")
            if not self.ctx.valid(lt(ic(0), y)):
                raise Unsupported("divisor not known to be positive")
            q, r = self.ctx.divmod(x, y)
            return D(q) if t == "FloorDiv" else D(r)
        if t == "Pow":
            return self.power(x, y)
        if t == "Div":
            return self.cdiv(x, y)
        if t == "BitXor":
            return mod(add(x, y), ic(2)) if self.ctx.valid(and_(*[and_(le(ic(0), z), le(z, ic(1))) for z in (x, y)])) \
                else self._bad("xor")
        raise Unsupported("operator " + t)

    def power(self, x, y):
        cy = const_of(y)
        if cy is not None:
            if isinstance(cy, tuple):
                if cy[1] == 0 and cy[0] == Fraction(1, 2):
                    return self.fun1("sqrt", x)
                if cy[1] == 0 and cy[0].denominator == 1:
                    cy = int(cy[0])
                else:
                    raise Unsupported("power")
            if 0 <= cy <= 4:
                return mul(*([x] * cy)) if cy else lift(1, x.sort)
        if x.sort == "int" and y.sort == "int":
            # x ** (p + c) = x ** p * x ** c for constants c
            d = pdict(y)
            c = d.pop((), 0)
            base = poly(d, "int")
            if c < 0:
                return app("pow", x, y)
            r = app("pow", x, base) if const_of(base) is None else ic(1)
            return mul(r, *([x] * c)) if c else r
        raise Unsupported("power")

    def fun1(self, name, x):
        return app(name, lift(x, "cx"), sort="cx")

    def cdiv(self, a, b):
        if not isinstance(b, E) and not isinstance(a, E):
            if b == 0:
                raise ZeroDivisionError()
            if isinstance(a, int) and isinstance(b, int):
                return Fraction(a, b)
            return a / b
        y = lift(b, "cx")
        c = const_of(y)
        if c is not None:
            if c == (0, 0):
                raise RaiseSig("ZeroDivisionError")
            den = c[0] ** 2 + c[1] ** 2
            return mul(lift(a, "cx"), cc((c[0] / den, -c[1] / den)))
        return mul(lift(a, "cx"), inv(y))

    # ------------------------------------------------------------ indexing
    def slice_bound(self, node, default, n, frame):
        """A slice bound normalised into [0, n] (as numpy and Python clamp)."""
        if node is None:
            return default
        v = self.eval(node, frame) if isinstance(node, ast.AST) else node
        if v is None:
            return default
        v = D(v)
        if isinstance(v, int) and isinstance(n, int):
            return max(0, v + n) if v < 0 else min(v, n)
        e, m = lift(v), lift(n)
        if self.ctx.valid(lt(e, ic(0))):
            e = add(e, m)
            if not self.ctx.valid(le(ic(0), e)):
                e = ite(lt(e, ic(0)), ic(0), e)
            return D(e)
        if not self.ctx.valid(le(ic(0), e)):
            w = add(e, m)
            return D(ite(lt(e, ic(0)), ite(lt(w, ic(0)), ic(0), w), ite(le(e, m), e, m)))
        if not self.ctx.valid(le(e, m)):
            e = ite(le(e, m), e, m)
        return D(e)

    def norm_index(self, v, n):
        """An index normalised into [0, n), or IndexError."""
        v = D(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float) or (isinstance(v, E) and v.sort == "cx"):
            raise Unsupported("index that is not an integer")
        if isinstance(v, int) and isinstance(n, int):
            if not -n <= v < n:
                raise RaiseSig("IndexError")
            return v + n if v < 0 else v
        e, m = lift(v, "int"), lift(n)
        if self.ctx.valid(and_(le(ic(0), e), lt(e, m))):
            return D(e)
        if self.ctx.valid(and_(le(neg(m), e), lt(e, ic(0)))):
            return D(add(e, m))
        if self.branch(and_(le(ic(0), e), lt(e, m))):
            return D(e)
        if self.branch(and_(le(neg(m), e), lt(e, ic(0)))):
            return D(add(e, m))
        raise RaiseSig("IndexError")

    def index_items(self, sl, frame):
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        out = []
        for x in elts:
            if isinstance(x, ast.Slice):
                out.append(("slice", x))
            elif isinstance(x, ast.Constant) and x.value is Ellipsis:
                out.append(("ellipsis", None))
            else:
                v = self.eval(x, frame)
                if isinstance(v, tuple) and not isinstance(sl, ast.Tuple):
                    return [("idx", y) for y in v]
                out.append(("none", None) if v is None else ("idx", v))
        return out

    def wrap_item(self, s, v):
        if s.kind == "str" and is_scalar(v):
            return Seq("str", (Items((v,)),)) if isinstance(v, E) else chr(v)
        if isinstance(v, Sp) and v.name == "fdict":
            return self.new_dict(dict(v.items), v.res)
        return v

    def get_item(self, c, sl, frame):
        if isinstance(c, Sp) and c.name == "dict":
            k = self.eval(sl, frame)
            found, v = self.dict_lookup(c, k)
            if not found:
                raise RaiseSig("KeyError")
            return v
        if isinstance(c, Sp) and c.name == "range":
            k = self.eval(sl, frame)
            return D(add(lift(c.lo), mul(lift(self.norm_index(k, c.n)), lift(c.step))))
        if isinstance(c, (tuple, str, Lst, Seq)):
            s = self.seq(c)
            n = self.seq_len(s)
            if isinstance(sl, ast.Slice):
                if sl.step is not None:
                    st = self.eval(sl.step, frame)
                    if st == -1 and sl.lower is None and sl.upper is None:
                        r = Seq(s.kind, (Sub(n, lambda k: self.seq_get(s, sub(lift(n), add(k, ic(1))))),))
                        return self.rewrap(c, r)
                    if isinstance(st, int) and isinstance(n, int) and all(isinstance(b, (ast.Constant, type(None))) for b in (sl.lower, sl.upper)):
                        r = Seq(s.kind, (Items([self.seq_get(s, i) for i in range(n)[slice(
                            sl.lower.value if sl.lower else None, sl.upper.value if sl.upper else None, st)]]),))
                        return self.rewrap(c, r)
                    raise Unsupported("slice step")
                lo = self.slice_bound(sl.lower, 0, n, frame)
                hi = self.slice_bound(sl.upper, n, n, frame)
                if not (isinstance(lo, int) and isinstance(hi, int)) and not self.ctx.valid(le(lift(lo), lift(hi))):
                    hi = D(ite(le(lift(lo), lift(hi)), lift(hi), lift(lo)))
                if isinstance(lo, int) and isinstance(hi, int) and hi < lo:
                    hi = lo
                return self.rewrap(c, self.seq_slice(s, lo, hi))
            k = self.eval(sl, frame)
            if not is_scalar(k):
                raise Unsupported("sequence index %r" % (k,))
            k = self.norm_index(k, n)
            return self.wrap_item(s, self.seq_get(s, k))
        if isinstance(c, (Nd, Arr)):
            items = self.index_items(sl, frame)
            if len(items) == 1 and items[0][0] == "idx" and self.arr(c).ndim == 1 and isinstance(items[0][1], (Nd, Arr)) \
                    and self.arr(items[0][1]).sort == "bool" and self.arr(items[0][1]).ndim == 1:
                from . import models
                x, m = self.arr(c), self.arr(items[0][1])
                models.need_eq(self, x.shape[0], m.shape[0], "mask")
                return models.bag(self, [([x.shape[0]], m.fn, x.fn)])
            return self.index(c, items, frame)
        if isinstance(c, Sp) and c.name == "bag":
            from . import models
            m = self.eval(sl, frame)
            if models.is_bag(m):
                return models.bag_select(self, c, m)
        if isinstance(c, Obj):
            m = self.class_member(c.cls, "__getitem__")
            if m:
                return self.call(Fn(m[0], None, m[1].mod, m[1], c, "__getitem__"), [self.eval(sl, frame)], {})
        if isinstance(c, Sp) and hasattr(c, "getitem"):
            return c.getitem(self, sl, frame)
        raise Unsupported("indexing %r" % (c,))

    def rewrap(self, c, s):
        if isinstance(c, tuple):
            n = self.seq_len(s)
            if isinstance(n, int):
                return tuple(self.seq_get(s, i) for i in range(n))
            return s
        if isinstance(c, Lst):
            return Lst(self.new(s))
        if s.kind == "str" and len(s.parts) <= 1 and all(isinstance(p, Items) and all(isinstance(v, int) for v in p.vals) for p in s.parts):
            return "".join(chr(v) for p in s.parts for v in p.vals)
        return s

    def index(self, c, items, frame=None):
        """numpy basic indexing (a view), plus integer/boolean array indexing (a copy)."""
        a = self.arr(c)
        items = [("idx", x) if not (isinstance(x, tuple) and len(x) == 2 and x[0] in
                                    ("idx", "slice", "none", "ellipsis", "range")) else x for x in items]
        nreal = sum(1 for k, _ in items if k in ("idx", "slice", "range"))
        if any(k == "ellipsis" for k, _ in items):
            p = [k for k, _ in items].index("ellipsis")
            items = items[:p] + [("range", (0, None))] * (a.ndim - nreal) + items[p + 1:]
        else:
            items = items + [("range", (0, None))] * (a.ndim - nreal)
        if len([1 for k, _ in items if k != "none"]) > a.ndim:
            raise RaiseSig("IndexError")
        plan, shape, ax = [], [], 0
        adv = []
        for k, v in items:
            if k == "none":
                shape.append(1)
                plan.append(("new", None))
                continue
            n = a.shape[ax]
            if k == "idx":
                if isinstance(v, (Nd, Arr, Lst)):
                    adv.append(len(plan))
                    va = self.arr(v)
                    if va.sort == "bool":
                        va = self.mask_index(va, n)
                    plan.append(("adv", va))
                    ax += 1
                    continue
                plan.append(("fix", lift(self.norm_index(v, n), "int")))
            else:
                step = 1
                if k == "slice":
                    if v.step is not None:
                        step = self.eval(v.step, frame)
                        if step == -1 and v.lower is None and v.upper is None:
                            plan.append(("rev", lift(n)))
                            shape.append(n)
                            ax += 1
                            continue
                        if not (isinstance(step, int) and step >= 1):
                            raise Unsupported("slice step")
                    lo = self.slice_bound(v.lower, 0, n, frame)
                    hi = self.slice_bound(v.upper, n, n, frame)
                else:
                    lo, hi = v[0], v[1] if v[1] is not None else n
                ln = D(sub(lift(hi), lift(lo)))
                if isinstance(ln, int):
                    ln = max(0, ln)
                elif not self.ctx.valid(le(ic(0), ln)):
                    ln = ite(le(ic(0), ln), ln, ic(0))
                if step != 1:
                    ln = D(div(add(lift(ln), ic(step - 1)), ic(step)))
                plan.append(("off", lift(lo)) if step == 1 else ("step", (lift(lo), ic(step))))
                shape.append(ln)
            ax += 1
        if adv:
            return self.adv_index(a, plan, shape)

        def imap(*i):
            i = list(i)
            out = []
            for k, v in plan:
                if k == "new":
                    i.pop(0)
                elif k == "fix":
                    out.append(v)
                elif k == "rev":
                    out.append(sub(v, add(lift(i.pop(0)), ic(1))))
                elif k == "step":
                    out.append(add(v[0], mul(v[1], lift(i.pop(0)))))
                else:
                    out.append(add(v, lift(i.pop(0))))
            return out
        if not shape:
            return D(a.fn(*imap()))
        if isinstance(c, Nd):
            if c.imap is None:
                return Nd(c.ref, tuple(shape), imap, sparse=c.sparse)
            old = c.imap
            return Nd(c.ref, tuple(shape), lambda *i: old(*imap(*i)), sparse=c.sparse)
        return self.nd(Arr(shape, lambda *i: a.fn(*imap(*i)), a.sort))

    def mask_index(self, m, n):
        from . import models
        return models.selection(self, m, n)

    def adv_index(self, a, plan, shape):
        """Integer-array indexing: one or several index arrays of one shape."""
        advs = [v for k, v in plan if k == "adv"]
        ash = advs[0].shape
        for v in advs[1:]:
            if not self.shape_eq(v.shape, ash):
                raise Unsupported("index arrays of different shapes")
        ax = 0
        nax = []
        for j, (k, v) in enumerate(plan):
            if k in ("new", "step"):
                raise Unsupported("newaxis or a step with index arrays")
            nax.append(ax)
            ax += 1
        # index range obligation
        for (k, v), axx in zip(plan, nax):
            if k == "adv":
                ks = [fresh("k") for _ in v.shape]
                c = self.ctx.clone()
                for kk, d in zip(ks, v.shape):
                    c.assume(and_(le(ic(0), kk), lt(kk, lift(d))))
                x = lift(v.fn(*ks))
                if not c.valid(and_(le(ic(0), x), lt(x, lift(a.shape[axx])))):
                    raise Unsupported("index array out of the range of axis %d" % axx)
        pos = [j for j, (k, _) in enumerate(plan) if k == "adv"]
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        lead = sum(1 for k, _ in plan[:pos[0]] if k in ("off", "rev")) if contiguous else 0
        full = list(shape[:lead]) + list(ash) + list(shape[lead:])
        na = len(ash)

        def fn(*i):
            ai = i[lead:lead + na]
            rest = list(i[:lead] + i[lead + na:])
            out = []
            for k, v in plan:
                if k == "adv":
                    out.append(lift(v.fn(*ai)))
                elif k == "fix":
                    out.append(v)
                elif k == "rev":
                    out.append(sub(v, add(lift(rest.pop(0)), ic(1))))
                else:
                    out.append(add(v, lift(rest.pop(0))))
            return a.fn(*out)
        return self.nd(Arr(full, fn, a.sort))

    def writable(self, nd):
        if nd.ref in self.readonly:
            raise Unsupported("in-place change of a shared constant")

    def store_all(self, nd, val):
        """nd[...] = val (val an Arr of the same shape, already independent of nd)."""
        self.writable(nd)
        if nd.imap is None:
            old = self.heap[nd.ref]
            self.heap[nd.ref] = Arr(old.shape, val.fn, old.sort, upd=(old, lambda *i: TRUE, val.fn))
            return
        raise Unsupported("in-place update through a view")

    def set_item(self, c, sl, v, frame):
        if isinstance(c, Sp) and c.name == "dict":
            self.dict_store(c, self.eval(sl, frame), v)
            return
        if isinstance(c, Lst):
            s = self.heap[c.ref]
            n = self.seq_len(s)
            k = self.norm_index(self.eval(sl, frame), n)
            if isinstance(k, int) and len(s.parts) == 1 and isinstance(s.parts[0], Items):
                vals = list(s.parts[0].vals)
                vals[k] = v
                self.heap[c.ref] = Seq("list", (Items(vals),))
                return
            if not is_scalar(v):
                raise Unsupported("assignment of %r to a list element" % (v,))
            old = s
            kk, vv = lift(k), lift(v)
            self.heap[c.ref] = Seq("list", (Sub(n, lambda j: self.merge(eq(lift(j), kk), vv, self.seq_get(old, j))),))
            return
        if isinstance(c, Nd):
            return self.store(c, self.index_items(sl, frame), v, frame)
        if isinstance(c, Sp) and hasattr(c, "setitem"):
            return c.setitem(self, sl, v, frame)
        raise Unsupported("item assignment to %r" % (c,))

    def dict_store(self, c, k, v):
        d = dict(self.heap[c.ref])
        for y in list(d):
            if self.branch(self.key_eq(y, k)):
                k = y
                break
        d[k] = v
        self.heap[c.ref] = d

    def store(self, c, items, v, frame):
        a = self.heap[c.ref]
        if any(k == "idx" and isinstance(x, (Nd, Arr, Lst)) for k, x in items):
            return self.store_adv(c, items, v, frame)
        target = self.index(c, items, frame)
        # re-evaluate as a region of the base array
        if isinstance(target, Nd):
            shape = target.shape if target.imap is not None else a.shape
            imap = target.imap
        else:
            shape, imap = (), None
            fixed = []
            base_items = [x for k, x in items]
            if c.imap is not None:
                cur = self.arr(c)
                fixed = c.imap(*[lift(self.norm_index(x, d), "int") for x, d in zip(base_items, cur.shape)])
            else:
                fixed = [lift(self.norm_index(x, d), "int") for x, d in zip(base_items, a.shape)]
            imap = lambda: fixed
        val = self.arr(v)
        if val.ndim > len(shape):
            raise Unsupported("value of higher rank")
        pad = len(shape) - val.ndim
        for p, q in zip(val.shape, shape[pad:]):
            if p != 1 and not (p == q or self.ctx.valid(eq(lift(p), lift(q)))):
                raise Unsupported("assigned shape %s to region %s" % (val.shape, shape))
        if a.sort != "cx" and val.sort == "cx":
            if a.attrs.get("dtype") == "float" and a.attrs.get("site") is not None:
                raise Promote(a.attrs["site"])
            raise Unsupported("complex stored in an integer array")
        # region: base index = imap(local index); each coordinate is const or const + one local index
        names = [fresh("k") for _ in shape]
        img = imap(*names) if imap is not None else list(names)
        inv_ = {}
        conds = []
        for d, e in enumerate(img):
            used = [j for j, nm in enumerate(names) if nm.args[0] in e.fv]
            if len(used) > 1:
                raise Unsupported("region of a strided view")
            if not used:
                conds.append((d, e, None))
            else:
                j = used[0]
                for step in range(1, 9):
                    off = sub(e, mul(ic(step), names[j]))
                    if not any(nm.args[0] in off.fv for nm in names):
                        break
                else:
                    raise Unsupported("region of a strided view")
                inv_[j] = (d, off, ic(step))
                conds.append((d, off, j))
        for j in range(len(names)):
            if j not in inv_:
                if shape[j] != 1:
                    raise Unsupported("region of a broadcast view")

        def member(*c_):
            out = []
            for d, off, j in conds:
                x = lift(c_[d])
                if j is None:
                    out.append(eq(x, off))
                elif inv_[j][2] is ic(1):
                    out.append(and_(le(off, x), lt(x, add(off, lift(shape[j])))))
                else:
                    st = inv_[j][2]
                    out.append(and_(le(off, x), lt(div(sub(x, off), st), lift(shape[j])), eq(mod(sub(x, off), st), ic(0))))
            return and_(*out)
        # snapshot of the value: evaluated lazily, but on immutable Arr values, so later writes do not matter

        def value(*c_):
            local = [div(sub(lift(c_[inv_[j][0]]), inv_[j][1]), inv_[j][2]) if j in inv_ else ic(0) for j in range(len(names))]
            local = local[pad:]
            return lift(val.fn(*[ic(0) if p == 1 else x for p, x in zip(val.shape, local)]), a.sort)
        if a.attrs.get("dtype") == "float" and val.sort == "cx":
            self.need_real(val)
        self.writable(c)
        self.heap[c.ref] = Arr(a.shape, lambda *i: ite(member(*i), value(*i), lift(a.fn(*i), a.sort)), a.sort,
                               upd=(a, member, value), attrs=keep(a.attrs))

    def need_real(self, val):
        """Only real numbers fit into an array of floats."""
        ks = [fresh("k") for _ in val.shape]
        c = self.ctx.clone()
        for k, d in zip(ks, val.shape):
            c.assume(and_(le(ic(0), k), lt(k, lift(d))))
        x = lift(val.fn(*ks), "cx")
        from .nf import nf_zero
        if conj(x) is not x and not nf_zero(c, sub(x, conj(x)), self.rules()):
            raise Unsupported("complex numbers stored in an array of floats")

    def store_where(self, c, m, v):
        """a[mask] = scalar, or an array of the values (each position once)."""
        if c.imap is not None:
            raise Unsupported("masked assignment to a view")
        a, mk_ = self.heap[c.ref], self.arr(m)
        if mk_.ndim != a.ndim or not self.shape_eq(mk_.shape, a.shape):
            raise Unsupported("mask of another shape")
        if not is_scalar(v):
            raise Unsupported("masked assignment of an array")
        v = lift(v)
        if a.sort != "cx" and v.sort == "cx":
            raise Unsupported("masked assignment of non-integers")
        old = a.fn
        self.writable(c)
        self.heap[c.ref] = Arr(a.shape, lambda *i: ite(lift(mk_.fn(*i)), lift(v, a.sort), lift(old(*i), a.sort)), a.sort, attrs=keep(a.attrs))

    def store_enum(self, c, e, idxs, v):
        """a[index arrays] = values, the index arrays enumerating distinct positions."""
        if c.imap is not None:
            raise Unsupported("index-array assignment to a view")
        a, val = self.heap[c.ref], self.arr(v)
        n = idxs[0].shape[0]
        if val.ndim == 1:
            from . import models
            models.need_eq(self, val.shape[0], n, "index-array assignment")
        elif val.ndim:
            raise Unsupported("index-array assignment")
        # every position lies inside the array
        p = fresh("k")
        cx = self.ctx.clone()
        cx.assume(and_(le(ic(0), p), lt(p, lift(n))))
        for x, d in zip(idxs, a.shape):
            y = lift(x.fn(p))
            if not cx.valid(and_(le(ic(0), y), lt(y, lift(d)))):
                raise Unsupported("index array out of range")
        if a.sort != "cx" and val.sort == "cx":
            if a.attrs.get("dtype") == "float":
                raise Promote(a.attrs["site"])
            raise Unsupported("complex stored in an integer array")
        if a.attrs.get("dtype") == "float" and val.sort == "cx":
            self.need_real(val)
        old = a.fn
        self.writable(c)
        self.heap[c.ref] = Arr(a.shape, lambda *i: ite(e.cond(*[lift(x) for x in i]),
                                                       lift(val.fn(e.at(*[lift(x) for x in i])) if val.ndim else val.fn(), a.sort),
                                                       lift(old(*i), a.sort)), a.sort, attrs=keep(a.attrs))

    def need_dim(self, m, n):
        from . import models
        models.need_eq(self, m, n, "index-array assignment")

    def store_adv(self, c, items, v, frame):
        """a[[i, j]] = rows (index lists of concrete length on the first axis)."""
        if len(items) == 1 and items[0][0] == "idx" and isinstance(items[0][1], (Nd, Arr)) and self.arr(items[0][1]).sort == "bool":
            return self.store_where(c, items[0][1], v)
        if all(k == "idx" and isinstance(x, (Nd, Arr)) for k, x in items):
            xs = [self.arr(x) for _, x in items]
            e = xs[0].attrs.get("enum")
            if e is not None and all(x.attrs.get("enum") is e for x in xs):
                return self.store_enum(c, e, xs, v)
        full = lambda k, x: k == "slice" and x.lower is None and x.upper is None and x.step is None
        at = [p for p, (k, x) in enumerate(items) if not full(k, x)]
        if c.imap is not None or len(at) != 1:
            raise Unsupported("index-array assignment")
        p = at[0]
        idx = self.arr(items[p][1])
        a = self.heap[c.ref]
        val = self.arr(v)
        if idx.ndim != 1 or not isinstance(idx.shape[0], int) or p and val.ndim != a.ndim:
            raise Unsupported("index-array assignment")
        for t in range(idx.shape[0]):
            k = self.norm_index(idx.fn(ic(t)), a.shape[p])
            if val.ndim < a.ndim:            # the same for each
                self.store(Nd(c.ref), [*items[:p], ("idx", k)], val, frame)
                continue
            self.need_dim(val.shape[p], idx.shape[0])
            self.store(Nd(c.ref), [*items[:p], ("idx", k)], Arr(
                val.shape[:p] + val.shape[p + 1:], (lambda t: lambda *i: val.fn(*i[:p], ic(t), *i[p:]))(t), val.sort), frame)

    # ------------------------------------------------------------ attributes
    def obj(self, cls, **fields):
        d = dict(fields)
        if d:
            d["#partial"] = True      # a state described by a contract: other attributes are not known
        return Obj(self.new(d), cls)

    def set_attr(self, o, name, v):
        if isinstance(o, Obj):
            st = self.class_setter(o.cls, name)
            if st:
                self.call(Fn(st[0], None, st[1].mod, st[1], o, name), [v], {})
                return
            d = dict(self.heap[o.ref])
            d[name] = v
            self.heap[o.ref] = d
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    def get_attr(self, o, name):
        from . import models
        if isinstance(o, Obj):
            d = self.heap[o.ref]
            if name in d:
                v = d[name]
                if v is POISON:
                    raise Unsupported("attribute %s read before it is known" % name)
                return v
            m = self.class_member(o.cls, name)
            if m:
                decos = [ast.unparse(x) for x in m[0].decorator_list]
                if "property" in decos:
                    return self.call(Fn(m[0], None, m[1].mod, m[1], o, name), [], {})
                if "staticmethod" in decos:
                    return Fn(m[0], None, m[1].mod, m[1], None, "%s.%s" % (m[1].name, name))
                return Fn(m[0], None, m[1].mod, m[1], o, "%s.%s" % (m[1].name, name))
            if "#partial" in d:
                raise Unsupported("attribute %s is not described by the contract" % name)
            raise RaiseSig("AttributeError")
        if isinstance(o, Cls):
            m = self.class_member(o, name)
            if m:
                return Fn(m[0], None, m[1].mod, m[1], None, "%s.%s" % (m[1].name, name))
            for n in o.node.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return self.eval(n.value, Frame(o.mod, o))
            raise Unsupported("class attribute %s.%s" % (o.name, name))
        if isinstance(o, Builtin) and o.bound is None:
            return self.resolve_import(Builtin("%s.%s" % (o.name, name)))
        if isinstance(o, Opaque):
            if name in o.attrs:
                return o.attrs[name]
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, Sp) and o.name == "dict" and o.res and name in self.heap[o.ref]:
            return self.heap[o.ref][name]
        if isinstance(o, Sp) and hasattr(o, "attr"):
            return o.attr(self, name)
        r = models.attribute(self, o, name)
        if r is not NotImplemented:
            return r
        return Builtin("method." + name, bound=o)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, frame):
        from . import models
        if isinstance(e.func, ast.Name) and e.func.id == "print":
            return None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            b = list(self.bases(frame.cls))
            f = frame
            while f is not None and "self" not in f.env:
                f = f.parent
            return Sp("super", attr=lambda it, name: it.super_attr(b, name, f.env["self"]))
        f = self.eval(e.func, frame)
        if (isinstance(f, Builtin) and f.bound is None and (f.name in ONESHOT - {"iter"} or f.name.startswith("itertools."))
                or isinstance(f, Fn) and self.is_generator(f.node)) and not consumed_once(e):
            raise Unsupported("an iterator that is kept")
        if isinstance(f, Builtin) and f.bound is None and f.name in models.LAZY:
            return models.LAZY[f.name](self, e, frame)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.concrete_items(self.eval(a.value, frame)))
            else:
                args.append(self.eval(a, frame))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, frame)
                if not (isinstance(d, Sp) and d.name == "dict"):
                    raise Unsupported("** argument")
                for kk, vv in self.heap[d.ref].items():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, frame)
        self.cursite = id(e)
        return self.call(f, args, kwargs)

    def super_attr(self, bases, name, me):
        for b in bases:
            m = self.class_member(b, name)
            if m:
                return Fn(m[0], None, m[1].mod, m[1], me, "%s.%s" % (m[1].name, name))
        if name == "__init__":
            return Builtin("object.__init__")
        raise Unsupported("super().%s" % name)

    def concrete_items(self, v):
        if isinstance(v, tuple):
            return v
        s = self.iter_seq(v)
        n = self.seq_len(s)
        if not isinstance(n, int):
            raise Unsupported("symbolic number of arguments")
        return [self.wrap_item(s, self.seq_get(s, i)) for i in range(n)]

    @staticmethod
    def is_generator(node):
        g = getattr(node, "is_gen", None)
        if g is None:
            g = node.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
        return g

    def call(self, f, args, kwargs):
        from . import models
        if isinstance(f, Fn):
            name = "%s:%s" % (f.mod.path, f.name if "." in (f.name or "") or not f.cls else "%s.%s" % (f.cls.name, f.name))
            if name in self.contracts:
                h = self.contracts[name]
                return h(self, f, args, kwargs)
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Cls):
            name = "%s:%s" % (f.mod.path, f.name)
            if name in self.contracts:
                return self.contracts[name](self, f, args, kwargs)
            return self.construct(f, args, kwargs)
        if isinstance(f, Builtin):
            return self.call_builtin(f.name, args, kwargs, f.bound)
        if isinstance(f, Opaque) and "call" in f.attrs:
            return f.attrs["call"](self, args, kwargs)
        if isinstance(f, Sp) and hasattr(f, "call"):
            return f.call(self, args, kwargs)
        if isinstance(f, Obj):
            m = self.class_member(f.cls, "__call__")
            if m:
                return self.call(Fn(m[0], None, m[1].mod, m[1], f, "__call__"), args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def construct(self, cls, args, kwargs):
        o = self.obj(cls)
        m = self.class_member(cls, "__init__")
        if m:
            self.call(Fn(m[0], None, m[1].mod, m[1], o, "%s.__init__" % m[1].name), args, kwargs)
        return o

    def call_builtin(self, name, args, kwargs, bound=None):
        from . import models
        return models.call(self, name, args, kwargs, bound)

    def bind(self, f, args, kwargs):
        node = f.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.bound is not None and not isinstance(node, ast.Lambda):
            args = [f.bound] + list(args)
        env = {}
        if len(args) > len(names) and not a.vararg:
            raise RaiseSig("TypeError")
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kwargs.items():
            if k in env:
                raise RaiseSig("TypeError")
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise RaiseSig("TypeError")
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(extra)
        fr = Frame(f.mod, f.cls, {}, f.frame)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.eval(d, f.frame or Frame(f.mod, f.cls))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval(d, f.frame or Frame(f.mod, f.cls))
        for n in names:
            if n not in env:
                raise RaiseSig("TypeError")
        return env

    def call_fn(self, f, args, kwargs):
        env = self.bind(f, args, kwargs)
        fr = Frame(f.mod, f.cls, env, f.frame)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, fr)
        self.inlined.add("%s:%s" % (f.mod.path, f.name if "." in f.name or not f.cls else f.cls.name + "." + f.name))
        self.depth += 1
        if self.depth > 25:
            raise Unsupported("recursion")
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        saved = self.heap.get("YIELD")
        if gen:
            self.heap["YIELD"] = Seq("list")
        try:
            self.exec_block(f.node.body, fr)
            out = None
        except ReturnSig as r:
            out = r.value
        finally:
            self.depth -= 1
        if gen:
            out = Lst(self.new(self.heap["YIELD"]))
            self.heap["YIELD"] = saved
        return out

    # ------------------------------------------------------------ iteration
    def iter_seq(self, v):
        """The elements of an iterable as a Seq."""
        if isinstance(v, (tuple, Lst, Seq, str)):
            return self.seq(v)
        if isinstance(v, Sp) and v.name == "range":
            if isinstance(v.n, int) and isinstance(v.lo, int) and v.n <= 64:
                return Seq("list", (Items([v.lo + i * v.step for i in range(v.n)]),))
            return Seq("list", (Sub(v.n, lambda k: D(add(lift(v.lo), mul(lift(k), lift(v.step))))),))
        if isinstance(v, Sp) and v.name == "iter":
            return v.seq(self)
        if isinstance(v, Sp) and v.name == "nonzero":
            return Seq("list", (Nest(v.n, lambda i: Seq("list", (If(v.nz(lift(i)), Seq("list", (Items((D(lift(i)),)),)), Seq("list")),))),))
        if isinstance(v, Sp) and v.name == "dict":
            return Seq("list", (Items(tuple(self.heap[v.ref].keys())),))
        if isinstance(v, (Nd, Arr)):
            a = self.arr(v)
            if a.ndim == 0:
                raise RaiseSig("TypeError")
            if a.ndim == 1:
                return Seq("list", (Sub(a.shape[0], lambda k: a.fn(k)),)) if not isinstance(a.shape[0], int) or a.shape[0] > UNROLL \
                    else Seq("list", (Items([D(a.fn(ic(k))) for k in range(a.shape[0])]),))
            # rows are views of the current array; iteration reads them immediately
            n = a.shape[0]
            sp = isinstance(v, Nd) and v.sparse

            def row(k):
                return self.index(v, [("idx", k)]) if isinstance(v, Nd) else \
                    self.nd(Arr(a.shape[1:], lambda *i: a.fn(k, *i), a.sort), sparse=sp)
            if isinstance(n, int) and n <= UNROLL:
                return Seq("list", (Items([row(ic(k)) for k in range(n)]),))
            return Seq("list", (Sub(n, row),))
        if isinstance(v, Obj):
            m = self.class_member(v.cls, "__iter__")
            if m:
                return self.seq(self.call(Fn(m[0], None, m[1].mod, m[1], v, "__iter__"), [], {}))
        raise Unsupported("iteration over %r" % (v,))

    # ------------------------------------------------------------ gates (ghost trace)
    def is_gate(self, v):
        from . import gates
        return gates.as_gate(v) is not None

    def apply_gate(self, g, target):
        from . import gates
        gates.apply(self, g, target)

    def measured(self, q):
        from . import gates
        return gates.measured(self, q)


def keep(attrs):
    """What stays true of an array after an assignment to it."""
    return {k: attrs[k] for k in ("dtype", "site") if k in attrs}


def inv(y):
    """1 / y as an opaque complex number."""
    if y.op == "app" and y.args[0] == "inv":
        return y.args[1]
    if y.op == "poly" and len(y.args[0]) == 1:      # 1 / (c x y) = (1 / c)(1 / x)(1 / y)
        (m, c), = y.args[0]
        if m and (len(m) > 1 or c != (1, 0)):
            n = c[0] * c[0] + c[1] * c[1]
            return mul(cc((c[0] / n, -c[1] / n)), *[inv(x) for x in m])
    return app("inv", y, sort="cx")


def _load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    return n
