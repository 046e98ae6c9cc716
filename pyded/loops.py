"""Loops: concrete ranges are unrolled; symbolic ranges are summarised by closed forms of the state before iteration i.

The closed forms are theorems about iteration (telescoping sums, monotone flags, appended sequences, writes whose target
determines the iteration, at-most-once updates) or come from a loop specification of the contract, which is then
checked: it must hold initially and be preserved by the body.
"""
import ast

from .expr import *
from .values import *
from .interp import (BreakSig, ContinueSig, ReturnSig, RaiseSig, PathDead, NeedPre, Frame, UNROLL)


# ---------------------------------------------------------------- replacing loop symbols inside values
def repl(e, m, pre, memo=None):
    """Substitute variables m {name: E} and pre-symbol applications pre {name: fn(*args)->E} in an expression."""
    if not isinstance(e, E):
        return e
    memo = {} if memo is None else memo
    r = memo.get(e)
    if r is not None:
        return r
    r = _repl(e, m, pre, memo)
    memo[e] = r
    return r


def _repl(e, m, pre, memo):
    if e.op == "var":
        if e.args[0] in pre:
            return lift(pre[e.args[0]](), e.sort)
        return m.get(e.args[0], e)
    if e.op == "app" and e.args[0] in pre:
        return lift(pre[e.args[0]](*[repl(x, m, pre, memo) for x in e.args[1:]]), e.sort)
    if e.op in BINDERS:
        v, hi, b = open_binder(e)
        nb = tsub(b, m, pre)
        nh = repl(hi, m, pre, memo) if isinstance(hi, E) else hi
        return {"sum": sum_, "exists": exists, "first": first, "lam": lam}[e.op](v, nh, nb)
    return rebuild(e, lambda x: repl(x, m, pre, memo))


def tsub(t, m, pre):
    if isinstance(t, tuple):
        return tuple(tsub(x, m, pre) for x in t)
    return repl(t, m, pre) if isinstance(t, E) else t


def inst(v, m, pre):
    """The same for any value (lazily inside arrays and sequences)."""
    if isinstance(v, E):
        return D(repl(v, m, pre)) if v.sort == "int" else repl(v, m, pre)
    if v is None or isinstance(v, (int, float, complex, str, bool, Fraction)):
        return v
    if isinstance(v, tuple):
        return tuple(inst(x, m, pre) for x in v)
    if isinstance(v, Arr):
        return Arr(tuple(inst(lift(s), m, pre) if isinstance(s, E) else s for s in v.shape),
                   lambda *i: escape(v, i, m, pre), v.sort, attrs=v.attrs)
    if isinstance(v, Seq):
        return Seq(v.kind, tuple(inst_part(p, m, pre) for p in v.parts))
    if isinstance(v, Sp):
        if v.name == "fdict":
            return Sp("fdict", items={k: inst(x, m, pre) for k, x in v.items.items()}, res=v.res)
        if v.name in ("qubit", "qureg", "gate", "range", "strint"):
            return Sp(v.name, **{k: inst(x, m, pre) if not callable(x) else x for k, x in v.__dict__.items() if k != "name"})
        return v
    if isinstance(v, (Opaque, Fn, Builtin, Cls, Obj)):
        return v
    raise Unsupported("value %r kept from an iteration" % (v,))


def escape(v, idx, m, pre):
    """v.fn at idx, with the substitution applied to what v computes and not to the indices."""
    ph = [fresh("z") for _ in idx]
    e = lift(v.fn(*ph), v.sort)
    e = repl(e, m, pre)
    return subst(e, {p.args[0]: lift(x, "int") for p, x in zip(ph, idx)})


def escape1(f, k, m, pre):
    ph = fresh("z")
    r = f(ph)
    r = inst(r, m, pre)
    return inst(r, {ph.args[0]: lift(k)}, {})


def inst_part(p, m, pre):
    if isinstance(p, Items):
        return Items([inst(x, m, pre) for x in p.vals])
    if isinstance(p, Sub):
        return Sub(inst(lift(p.n), m, pre) if isinstance(p.n, E) else p.n, lambda k: escape1(p.fn, k, m, pre))
    if isinstance(p, Loop):
        return Loop(inst(lift(p.n), m, pre) if isinstance(p.n, E) else p.n, lambda k: escape1(p.fn, k, m, pre))
    if isinstance(p, If):
        c = repl(p.cond, m, pre)
        return If(c, inst(p.a, m, pre), inst(p.b, m, pre))
    if isinstance(p, Pre):
        return p
    raise Unsupported("part %r" % (p,))


def symbols(v, out):
    """Variables and function symbols of a value (arrays and sequences are probed at fresh indices)."""
    if isinstance(v, E):
        for x in subterms(v):
            if x.op == "var":
                out.add(x.args[0])
            elif x.op == "app":
                out.add(x.args[0])
    elif isinstance(v, tuple):
        for x in v:
            symbols(x, out)
    elif isinstance(v, Arr):
        for s in v.shape:
            symbols(s, out)
        symbols(lift(v.fn(*[fresh("z") for _ in v.shape])), out)
    elif isinstance(v, Seq):
        for p in v.parts:
            if isinstance(p, Items):
                for x in p.vals:
                    symbols(x, out)
            elif isinstance(p, (Sub, Loop)):
                symbols(p.n, out)
                symbols(p.fn(fresh("z")), out)
            elif isinstance(p, If):
                symbols(p.cond, out)
                symbols(p.a, out)
                symbols(p.b, out)
            elif isinstance(p, Pre):
                out.add(p.name)
    elif isinstance(v, Sp):
        if v.name == "fdict":
            for x in v.items.values():
                symbols(x, out)
            return out
        for k, x in v.__dict__.items():
            if k != "name" and not callable(x):
                symbols(x, out)
    return out


def freeze(it, v, heap, base):
    """An immutable copy of a value computed inside an iteration."""
    saved, it.heap = it.heap, heap
    try:
        return _freeze(it, v, base)
    finally:
        it.heap = saved


def _freeze(it, v, base):
    if isinstance(v, Nd):
        if v.ref in base and v.ref in it.heap and it.heap[v.ref] is base[v.ref] and False:
            pass
        a = it.arr(v)
        b = a
        return Arr(b.shape, b.fn, b.sort, attrs=dict(b.attrs, **({"sparse": v.sparse} if v.sparse else {})))
    if isinstance(v, Lst):
        s = it.heap[v.ref]
        return Seq("list", tuple(_freeze_part(it, p, base) for p in s.parts))
    if isinstance(v, tuple):
        return tuple(_freeze(it, x, base) for x in v)
    if isinstance(v, Sp) and v.name == "dict" and v.ref not in base:
        return Sp("fdict", items={k: _freeze(it, x, base) for k, x in it.heap[v.ref].items()}, res=v.res)
    if isinstance(v, Seq):
        return Seq(v.kind, tuple(_freeze_part(it, p, base) for p in v.parts))
    return v


def _freeze_part(it, p, base):
    if isinstance(p, Items):
        return Items([_freeze(it, x, base) for x in p.vals])
    if isinstance(p, (Sub, Loop)):
        h = it.heap
        f = p.fn

        def g(k):
            saved, it.heap = it.heap, dict(h)
            try:
                return _freeze(it, f(k), base)
            finally:
                it.heap = saved
        return type(p)(p.n, g)
    if isinstance(p, If):
        return If(p.cond, _freeze(it, p.a, base), _freeze(it, p.b, base))
    return p


# ---------------------------------------------------------------- the for statement
def assigned(node):
    names = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.FunctionDef,)):
            names.add(n.name)
    return names


def exec_for(it, node, frame):
    src = it.eval(node.iter, frame)
    s = it.iter_seq(src)
    n = it.seq_len(s)
    if isinstance(n, E):
        n = D(it.ctx.simp(n))
    if isinstance(n, int) and n <= 64:
        for i in range(n):
            it.assign(node.target, it.wrap_item(s, it.seq_get(s, i)), frame)
            try:
                it.exec_block(node.body, frame)
            except ContinueSig:
                continue
            except BreakSig:
                return
        it.exec_block(node.orelse, frame)
        return

    names = set()
    for x in node.body + [node.target]:
        names |= assigned(x)

    def each(v):
        it.assign(node.target, v, frame)
        it.exec_block(node.body, frame)
    iterate(it, frame, s, n, each, names, node)


def nested(it, s):
    """The sequence as a Loop of blocks if it has to be iterated block by block."""
    if len(s.parts) == 1 and isinstance(s.parts[0], Loop):
        p = s.parts[0]
        k = fresh("k")
        if isinstance(p, Nest) or k.args[0] in lift(it.seq_len(p.fn(k))).fv:
            return p
    return None


def iterate(it, frame, s, n, each, names, node):
    p = nested(it, s)
    if p is None:
        return Summary(it, frame, n, lambda i: each(it.wrap_item(s, it.seq_get(s, i))), names, node).run()
    if node.body and has_break(node.body):
        raise Unsupported("break in a loop over blocks")
    inner = ast.For(target=node.target, iter=node.iter, body=node.body, orelse=[], lineno=node.lineno)

    def block(i):
        b = p.fn(lift(i))
        while len(b.parts) == 1 and isinstance(b.parts[0], If):
            b = b.parts[0].a if it.branch(b.parts[0].cond) else b.parts[0].b
        m = it.seq_len(b)
        m = D(it.ctx.simp(m)) if isinstance(m, E) else m
        if isinstance(m, int) and m <= 64:
            for j in range(m):
                try:
                    each(it.wrap_item(b, it.seq_get(b, j)))
                except ContinueSig:
                    pass
            return
        iterate(it, frame, b, m, each, names, inner)
    Summary(it, frame, p.n, block, names, node).run()


def has_break(stmts):
    for x in stmts:
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.While)):
            if has_break(x.orelse):
                return True
        elif isinstance(x, ast.If):
            if has_break(x.body) or has_break(x.orelse):
                return True
        elif isinstance(x, ast.With):
            if has_break(x.body):
                return True
        elif isinstance(x, ast.Try):
            if has_break(x.body) or has_break(x.orelse) or has_break(x.finalbody) or any(has_break(h.body) for h in x.handlers):
                return True
    return False


def same_object(a, b):
    return a is b or (isinstance(a, Nd) and isinstance(b, Nd) and a.ref == b.ref and a.imap is b.imap) or \
        (isinstance(a, Lst) and isinstance(b, Lst) and a.ref == b.ref)


class Loc:
    """A carried location: ('env', name) or ('heap', ref) or ('field', ref, name)."""


class Restart(Exception):
    """The loop is explored again from a guessed invariant."""


class Peel(Exception):
    """The first iteration is run on its own: the initial value (None, inf) is of another kind than what iterations leave."""


def placeholder_like(v):
    return v is None or isinstance(v, Opaque) and v.name == "inf" or isinstance(v, tuple) and any(placeholder_like(x) for x in v)


def plain_dict(v):
    return isinstance(v, Sp) and v.name == "dict"


def refs_of(it, v):
    """The mutable objects that a placeholder is made of."""
    if isinstance(v, (Nd, Lst)):
        return [v.ref]
    if isinstance(v, tuple):
        return [r for x in v for r in refs_of(it, x)]
    if plain_dict(v):
        return [v.ref] + [r for x in it.heap[v.ref].values() for r in refs_of(it, x)]
    return []


def parts_of(v, heap):
    """(path, value) of the scalars of a value made of tuples and dictionaries."""
    if isinstance(v, tuple):
        return [((j,) + q, y) for j, x in enumerate(v) for q, y in parts_of(x, heap)]
    if plain_dict(v):
        return [((k,) + q, y) for k, x in heap[v.ref].items() for q, y in parts_of(x, heap)]
    return [((), v)]


def part_at(it, v, path):
    """The component of v there, or None."""
    for k in path:
        if isinstance(v, tuple):
            v = v[k] if isinstance(k, int) and k < len(v) else None
        elif isinstance(v, Sp) and v.name in ("dict", "fdict"):
            v = (it.heap[v.ref] if plain_dict(v) else v.items).get(k)
        else:
            return None
    return v


class Summary:
    def __init__(self, it, frame, n, body, names, node):
        self.it, self.frame, self.n, self.body, self.names, self.node = it, frame, n, body, sorted(names), node
        self.nn = lift(n)
        self.i = fresh("it")
        self.carried = {}     # loc -> pre name
        self.offers = {}
        self.guessed = set()
        self.kept = set()     # names of mutable objects that the body only changes in place
        self.quals = (frame.mod.path if frame.mod is not None else "", getattr(node, "lineno", 0))

    # ------------------------------------------------ locations
    def read(self, loc, heap, env):
        if loc[0] == "env":
            return env.get(loc[1], POISON)
        if loc[0] == "heap":
            return heap[loc[1]]
        return heap[loc[1]].get(loc[2], POISON)

    def write(self, loc, v):
        it = self.it
        if loc[0] == "env":
            self.frame.env[loc[1]] = v
        elif loc[0] == "heap":
            it.heap[loc[1]] = v
        else:
            d = dict(it.heap[loc[1]])
            d[loc[2]] = v
            it.heap[loc[1]] = d

    def placeholder(self, loc, v0):
        """(value standing for the location before the iteration, set of its symbol names)"""
        it = self.it
        name = "pre:%s!%d" % ("/".join(str(x) for x in loc), id(self) % 1000003)
        if v0 is POISON and loc[0] == "env" and self.env0.get(loc[1]) is POISON:
            raise NeedPre(loc)          # carried by an enclosing loop
        if v0 is POISON:
            raise Unsupported("loop-carried variable %s without an initial value" % (loc,))
        if placeholder_like(v0):
            raise Peel()
        return self._ph(name, v0)

    def _ph(self, name, v):
        it = self.it
        if isinstance(v, bool) or isinstance(v, E) and v.sort == "bool":
            return var(name, "bool"), {name}
        if isinstance(v, int) or isinstance(v, E) and v.sort == "int":
            return var(name, "int"), {name}
        if isinstance(v, (float, complex, Fraction)) or isinstance(v, E) and v.sort == "cx":
            return var(name, "cx"), {name}
        if isinstance(v, Arr):
            return Arr(v.shape, lambda *i: app(name, *[lift(x, "int") for x in i], sort=v.sort) if i else var(name, v.sort),
                       v.sort, pre=name, attrs=v.attrs), {name}
        if isinstance(v, Seq) or isinstance(v, str):
            return Seq(it.seq(v).kind, (Pre(name),)), {name}
        if isinstance(v, tuple):
            out, names = [], set()
            for j, x in enumerate(v):
                p, ns = self._ph("%s.%d" % (name, j), x)
                out.append(p)
                names |= ns
            return tuple(out), names
        if isinstance(v, Nd):
            a = it.arr(v)
            p, ns = self._ph(name, a)
            return it.nd(p, sparse=v.sparse), ns
        if isinstance(v, Lst):
            return Lst(it.new(Seq("list", (Pre(name),)))), {name}
        if plain_dict(v) and all(isinstance(k, str) for k in it.heap[v.ref]):
            out, names = {}, set()
            for k, x in it.heap[v.ref].items():
                out[k], ns = self._ph("%s.%s" % (name, k), x)
                names |= ns
            return it.new_dict(out, v.res), names
        raise Unsupported("loop-carried value %r" % (v,))

    # ------------------------------------------------ exploring the body
    def run(self):
        it, frame = self.it, self.frame
        if it.ctx.valid(le(self.nn, ic(0))):
            self.orelse()
            return
        spec = self.find_spec()
        if spec is not None:
            return self.by_spec(spec)
        for x in self.names:
            v = frame.env.get(x)
            if isinstance(v, Arr) and v.pre is None:        # an element of a sequence: a value that is not changed in place
                frame.env[x] = it.nd(v, sparse=spflag(v))
                it.readonly.add(frame.env[x].ref)
        self.env0 = dict(frame.env)
        self.heap0 = dict(it.heap)
        try:
            self.stabilise()
        except Peel:
            return self.peel()
        try:
            self.summarise()
        except Restart:
            self.run()

    def peel(self):
        """The first iteration as it is, then the loop over the others."""
        it, frame = self.it, self.frame
        it.heap, frame.env = dict(self.heap0), dict(self.env0)
        if not it.ctx.valid(lt(ic(0), self.nn)):
            raise Unsupported("loop-carried value without a type in the loop at line %d" % self.quals[1])
        body = self.body
        try:
            body(ic(0))
        except ContinueSig:
            pass
        except BreakSig:
            return
        Summary(it, frame, D(sub(self.nn, ic(1))), lambda i: body(add(lift(i), ic(1))), set(self.names), self.node).run()

    def stabilise(self):
        it, frame = self.it, self.frame
        for attempt in range(30):
            frame.env = dict(self.env0)
            it.heap = dict(self.heap0)
            self.pre, self.prenames = {}, {}
            for loc in self.carried:
                v0 = self.read(loc, self.heap0, self.env0)
                g = self.offered(loc, v0)
                if g is not None:
                    v = g(self.i)
                    self.pre[loc] = v if loc[0] == "heap" else self.thaw2(v, v0)
                    self.prenames[loc] = set()
                    continue
                self.pre[loc], self.prenames[loc] = self.placeholder(loc, v0)
            for x in self.names:
                if ("env", x) not in self.carried and x not in self.kept:
                    frame.env[x] = POISON
            for loc in self.carried:
                self.write(loc, self.pre[loc])
            own = {r: l for l, v in self.pre.items() for r in refs_of(it, v)}
            base_refs = set(it.heap)
            self.heap1 = heap1 = dict(it.heap)
            c = it.ctx.clone()
            c.assume(and_(le(ic(0), self.i), lt(self.i, self.nn)))
            saved, it.ctx = it.ctx, c
            known = set(it.skolems)
            try:
                paths = it.explore(lambda: self.body(self.i), frame)
                self.chosen = {x: s for x, s in it.skolems.items() if x not in known}
            except NeedPre as e:
                self.add_carried(e.loc)
                continue
            finally:
                it.ctx = saved
                it.heap = dict(self.heap0)
                frame.env = dict(self.env0)
            new = set()
            for p in paths:
                for r in base_refs:
                    if p.heap.get(r) is not heap1[r]:
                        v = heap1[r]
                        if isinstance(v, dict):
                            for f in set(v) | set(p.heap[r]):
                                if p.heap[r].get(f, POISON) is not v.get(f, POISON):
                                    new.add(("field", r, f))
                        else:
                            new.add(("heap", r))
            # a name that some iterations assign and others leave alone keeps its value: carried
            done = [p for p in paths if p.out[0] in ("normal", "continue")]
            for x in self.names:
                if ("env", x) not in self.carried and x not in self.kept and x in self.env0 and self.env0[x] is not POISON and \
                        not (isinstance(self.env0[x], Opaque) and self.env0[x].name == "maybe-unbound"):
                    vals = [p.env.get(x, POISON) is POISON for p in done]
                    if any(vals) and not all(vals):
                        new.add(("env", x))
            # a name kept by reference must still denote the same object after the body
            lost = {x for x in self.kept for p in paths if not same_object(p.env.get(x), self.env0[x])}
            if lost:
                self.kept -= lost
                for x in lost:
                    self.carried[("env", x)] = None
                continue
            for p in paths:
                for r, l in own.items():
                    if p.heap.get(r) is not heap1[r]:
                        raise Unsupported("%s is both rebound and changed in place by the loop" % (l,))
            new = {l for l in new if l not in self.carried}
            # placeholders created for carried env values live in the heap too: ignore those refs
            new = {l for l in new if not (l[0] != "env" and l[1] not in self.heap0)}
            if any(l[0] == "env" and placeholder_like(self.env0[l[1]]) for l in new) and it.ctx.valid(lt(ic(0), self.nn)):
                raise Peel()
            if any(l[0] == "env" and isinstance(self.env0[l[1]], (Opaque, Obj, Fn, Cls, Builtin, Sp, type(None))) for l in new):
                new = {l for l in new if not (l[0] == "env" and isinstance(self.env0[l[1]], (Opaque, Obj, Fn, Cls, Builtin, Sp, type(None))))}
            if new:
                for l in new:
                    self.add_carried(l)
                continue
            break
        else:
            raise Unsupported("loop state does not stabilise")
        self.paths, self.base_refs, self.heap1 = paths, base_refs, heap1

    def add_carried(self, loc):
        if loc in self.carried:
            raise Unsupported("loop-carried location %s" % (loc,))
        if loc[0] == "env" and isinstance(self.env0.get(loc[1]), (Nd, Lst)) and loc[1] not in self.kept:
            self.kept.add(loc[1])
            return
        if loc[0] == "field" and not loc[2] in self.heap0[loc[1]]:
            # a field created in the body: written before it is read, or NeedPre-like failure on read
            pass
        self.carried[loc] = None

    def orelse(self):
        self.it.exec_block(self.node.orelse, self.frame) if hasattr(self.node, "orelse") else None

    # ------------------------------------------------ summarising
    def summarise(self):
        it = self.it
        i = self.i
        norm = [p for p in self.paths if p.out[0] in ("normal", "continue")]
        exits = [p for p in self.paths if p.out[0] not in ("normal", "continue")]
        self.choose()
        allpre = set()
        for ns in self.prenames.values():
            allpre |= ns
        self.allpre = allpre
        if not norm and not exits:
            # every iteration is infeasible
            it.ctx.assume(le(self.nn, ic(0)))
            return self.orelse()
        if self.first_hit(norm, exits):
            return
        # transitions of every carried location, frozen
        trans = {}
        for loc in self.carried:
            ts = []
            for p in norm:
                v = self.after(loc, p)
                ts.append((p, v))
            trans[loc] = ts
        changed = {l: [t for t in trans[l] if not self.unchanged(l, t[1])] for l in trans}
        pend = [l for l in self.carried]
        closed = {}                 # loc -> fn(i) -> value (frozen form)
        self.closed = closed
        progress = True
        while pend and progress:
            progress = False
            for loc in list(pend):
                f = self.infer(loc, trans[loc], changed[loc], closed, norm)
                if f is not None:
                    closed[loc] = f
                    pend.remove(loc)
                    progress = True
        best = self.best_of(pend, trans, changed, norm) if pend and not exits else None
        if pend and best is None:
            raise Unsupported("no closed form for %s in the loop at line %d" % (pend, self.quals[1]))
        # temporaries: names assigned in the body and not carried
        temps = {}
        for x in self.names:
            loc = ("env", x)
            if loc not in self.carried and x not in self.kept:
                vals = [(p, p.env.get(x, POISON)) for p in norm]
                temps[x] = vals
        if exits:
            cond = or_(*[self.resolve(p.cond, i, closed) for p in exits])
            k = fresh("k")
            ex = lambda hi: exists(k, hi, subst(cond, {i.args[0]: k}))
            hit = ex(self.nn)
            if it.branch(hit):
                fi = first(k, self.nn, subst(cond, {i.args[0]: k}))
                it.ctx.assume(and_(le(ic(0), fi), lt(fi, self.nn), subst(cond, {i.args[0]: fi})))
                it.ctx.assume(not_(ex(fi)))
                self.goto(fi, closed)
                try:
                    self.body(fi)
                except BreakSig:
                    return
                except ContinueSig:
                    raise PathDead()
                raise PathDead()
        self.goto(self.nn, closed)
        if best is not None:
            for loc, v in best.items():
                self.write(loc, self.thaw(v) if loc[0] != "heap" else v)
            for x in temps:
                self.frame.env[x] = Opaque("maybe-unbound")
            temps = {}
        self.after_loop(temps, closed)
        self.orelse()

    def best_of(self, pend, trans, changed, norm):
        """The locations change together, exactly when the iteration's value beats the best so far:
        m, x, .. = f(i), X(i), .. if (G(i) and f(i) < m)   (or any of <=, >, >=).
        Then either no iteration beats the initial value, or there is an iteration W whose values they have, with
        G(W), f(W) beats the initial value and no iteration with G beats f(W).  Values after the loop, or None."""
        it, i, closed = self.it, self.i, self.closed
        own = set()
        for l in pend:
            own |= self.prenames[l]
        ups = []
        for p in norm:
            ch = [l for l in pend if any(q is p for q, _ in changed[l])]
            if not ch:
                continue
            if len(ch) != len(pend):
                return None
            ups.append(p)
        if not ups or len(ups) == len(norm):
            return None
        def res(e):
            return self.resolve(e, i, closed)
        U = or_(*[res(p.cond) for p in ups])
        # the paths that do not update are those where no update path is taken
        if not it.ctx.valid(iff(or_(*[res(p.cond) for p in norm if p not in ups]), not_(U))):
            return None
        vals = {}
        for l in pend:
            acc = None
            for p in reversed(ups):
                v = [v for q, v in trans[l] if q is p][0]
                fv = v if isinstance(v, E) else freeze(it, v, p.heap, self.heap0)
                syms = symbols(fv, set())
                if syms & own or self.depends(syms, pend):
                    return None
                fv = inst(fv, {}, dict(self.pre_map(i, closed)))
                acc = fv if acc is None else it.merge(res(p.cond), fv, acc)
            vals[l] = acc
        inn = it.ctx.clone()
        inn.assume(and_(le(ic(0), i), lt(i, self.nn)))
        for l, path, m in [(l, path, m) for l in pend for path, m in parts_of(self.pre[l], self.heap1)]:
            f = part_at(it, vals[l], path)
            if not (isinstance(m, E) and m.sort in ("int", "cx") and is_scalar(f)):
                continue
            f = lift(f, m.sort)
            mine = self.prenames[l]
            if (symbols(U, set()) & own) - mine:
                continue
            for beats, down in ((lambda a, b: lt(a, b), True), (lambda a, b: le(a, b), True),
                                (lambda a, b: lt(b, a), False), (lambda a, b: le(b, a), False)):
                cmpf = beats(f, m)
                gs = [x for x in conjuncts(U) if not (symbols(x, set()) & mine)]
                G = and_(*gs)
                if not inn.valid(iff(U, and_(G, cmpf))):
                    continue
                m0 = lift(part_at(it, self.read(l, self.heap0, self.env0), path), m.sort)
                k = fresh("k")
                at = lambda e, x: subst(e, {i.args[0]: lift(x)})
                Ub = and_(G, beats(f, m0))
                if not it.branch(exists(k, self.nn, at(Ub, k))):
                    return {x: self.frozen0(x) for x in pend}
                w = fresh("W")
                it.skolems[w.args[0]] = "int"
                fw = at(f, w)
                it.ctx.assume(and_(le(ic(0), w), lt(w, self.nn), at(Ub, w)))
                better = lt(f, fw) if down else lt(fw, f)
                it.ctx.assume(not_(exists(k, self.nn, at(and_(G, better), k))))
                self.witness = w
                return {x: inst(v, {i.args[0]: w}, {}) if not isinstance(v, E) else at(v, w) for x, v in vals.items()}
        return None

    def frozen0(self, loc):
        v = self.read(loc, self.heap0, self.env0)
        return v if isinstance(v, E) or loc[0] == "heap" else freeze(self.it, v, self.heap0, self.heap0)

    def choose(self):
        """A value s chosen inside iteration i becomes s(i, ..); what its path knows of it holds for every iteration that
        takes the path."""
        it, i = self.it, self.i
        self.choice = {}
        if not self.chosen:
            return
        used = set()
        for p in self.paths:
            for d in p.facts:
                symbols(d, used)
            for loc in self.carried:
                try:
                    symbols(freeze(it, self.after(loc, p), p.heap, self.heap0), used)
                except Unsupported:
                    used |= set(self.chosen)
        for s in self.chosen:
            if s in used:
                self.choice[s] = s + "@"
        for s, t in self.choice.items():
            it.skolems[t] = self.chosen[s]
            facts = []
            for p in self.paths:
                mine = [d for d in p.facts if s in symbols(d, set()) and d not in p.decisions]
                if mine:
                    facts.append((p.cond, and_(*mine)))
            old = it.ctx.lemmas.pop(s, None)

            def lemma(k, *a, facts=facts, old=old, s=s, t=t):
                out = [repl(lift(old(*a)), {}, {s: lambda *b: app(t, lift(k), *b, sort=self.chosen[s])})] if old else []
                if self.allpre & set().union(*[symbols(c, set()) | symbols(f, set()) for c, f in facts], set()) - self.resolved():
                    return and_(*out)
                for c, f in facts:
                    e = implies(and_(le(ic(0), i), lt(i, self.nn), self.resolve(c, i, self.closed)), self.resolve(f, i, self.closed))
                    out.append(subst(e, {i.args[0]: lift(k)}))
                return and_(*out)
            if facts or old:
                it.ctx.lemmas[t] = lemma

    def resolved(self):
        r = set()
        for l in self.closed:
            r |= self.prenames[l]
        return r

    def after_loop(self, temps, closed):
        """Temporaries keep the value of the last iteration."""
        it = self.it
        ctx_valid = it.ctx.valid(lt(ic(0), self.nn))
        for x, vals in temps.items():
            old = self.env0.get(x, None)
            v = Opaque("maybe-unbound")
            if old is not None and all(val is POISON for _, val in vals):
                continue        # no iteration that completes assigns it
            try:
                if all(val is not POISON for _, val in vals) and vals:
                    acc = None
                    last = sub(self.nn, ic(1))
                    for p, val in reversed(vals):
                        fv = freeze(it, val, p.heap, self.heap0)
                        fv = self.inst_at(fv, last, closed)
                        fv = self.thaw(fv)
                        c = self.resolve(p.cond, self.i, closed)
                        c = subst(c, {self.i.args[0]: last})
                        acc = fv if acc is None else it.merge(c, fv, acc)
                    if ctx_valid:
                        v = acc
                    elif old is not None and old is not POISON:
                        v = it.merge(lt(ic(0), self.nn), acc, old)
            except (Unsupported, RaiseSig):
                pass
            self.frame.env[x] = v

    def thaw(self, v):
        it = self.it
        if isinstance(v, Arr):
            return it.nd(v, sparse=v.attrs.get("sparse", False))
        if isinstance(v, Seq) and v.kind == "list":
            return Lst(it.new(v))
        if isinstance(v, tuple):
            return tuple(self.thaw(x) for x in v)
        if isinstance(v, Sp) and v.name == "fdict":
            return it.new_dict({k: self.thaw(x) for k, x in v.items.items()}, v.res)
        return v

    def goto(self, k, closed):
        """Put the state before iteration k in place."""
        it = self.it
        for loc, f in closed.items():
            v = f(k)
            if loc[0] == "env":
                v = self.thaw(v)
            elif loc[0] == "field":
                v = self.thaw(v)
            self.write(loc, v)

    def after(self, loc, p):
        v = self.read(loc, p.heap, p.env)
        if v is POISON:
            raise Unsupported("location %s deleted in a loop" % (loc,))
        return v

    def pre_value(self, loc):
        return self.pre[loc]

    def unchanged(self, loc, v):
        p = self.pre[loc]
        if v is p:
            return True
        if isinstance(v, Nd) and isinstance(p, Nd):
            return False
        return False

    def resolve(self, e, i, closed):
        """Replace resolved pre-symbols by their closed forms at i."""
        return repl(e, {}, self.pre_map(i, closed))

    def pre_map(self, i, closed):
        m = {}
        for s, t in self.choice.items():
            m[s] = lambda *a, s=s, t=t: app(t, lift(i), *a, sort=self.chosen[s])
        for loc, f in closed.items():
            self._pm(m, self.pre_name(loc), loc, lambda f=f: f(i))
        return m

    def pre_name(self, loc):
        return "pre:%s!%d" % ("/".join(str(x) for x in loc), id(self) % 1000003)

    def _pm(self, m, name, loc, get, proto=None):
        proto = self.pre[loc] if proto is None else proto
        if isinstance(proto, tuple):
            for j, x in enumerate(proto):
                self._pm(m, "%s.%d" % (name, j), loc, (lambda j: lambda: get()[j])(j), x)
            return
        if plain_dict(proto):
            for k, x in self.heap1[proto.ref].items():
                self._pm(m, "%s.%s" % (name, k), loc, (lambda k: lambda: part_at(self.it, get(), (k,)))(k), x)
            return
        if isinstance(proto, E):
            m[name] = lambda: lift(get(), proto.sort)
        elif isinstance(proto, (Arr, Nd)):
            def fn(*i):
                a = self.it.arr(get())
                return lift(a.fn(*i), a.sort)
            m[name] = fn
        # sequences: Pre parts are handled separately

    def inst_at(self, v, k, closed):
        """The frozen value v of iteration i, at iteration k."""
        return inst(v, {self.i.args[0]: lift(k)}, {n: f for n, f in self.pre_map(lift(k), closed).items()})

    def depends(self, syms, own=()):
        """Unresolved pre-symbols among syms."""
        bad = set()
        for loc, ns in self.prenames.items():
            if loc in self.closed or loc in own:
                continue
            bad |= ns & syms
        return bad

    # ------------------------------------------------ inference of closed forms
    def infer(self, loc, ts, changed, closed, norm):
        it = self.it
        i = self.i
        v0 = self.read(loc, self.heap0, self.env0)
        own = self.prenames[loc]
        if not changed:
            fz = freeze(it, v0, self.heap0, self.heap0) if loc[0] != "heap" else v0
            return lambda k: v0
        g = self.offered(loc, v0)
        if g is not None:
            if self.inductive(loc, ts, v0, g):
                return lambda k: g(lift(k))
            raise Unsupported("the loop invariant of %s is not preserved by the loop at line %d" % (loc[-1], self.quals[1]))
        conds = [p.cond for p, _ in ts]
        syms = set()
        for c in conds:
            symbols(c, syms)
        pv = self.pre[loc]
        vals = [v for _, v in ts]
        # --- scalars
        if isinstance(pv, E):
            fz = [(p, lift(v, pv.sort)) for p, v in ts]
            for _, v in fz:
                if v.sort != pv.sort:
                    raise Unsupported("loop-carried variable %s changes its type" % (loc,))
            if pv.sort == "bool":
                return self.infer_flag(loc, fz, v0)
            vs = set()
            for _, v in fz:
                symbols(v, vs)
            # value of the previous iteration only
            if not (vs & own) and not (syms & own):
                if self.depends(vs | syms):
                    return None
                return self.carried_temp(loc, fz, v0)
            if syms & own:
                # the path depends on the value: guess that it grows by the same amount on every path, and start over
                # with that as the invariant (inductive() then has to prove it)
                ds = [(p, sub(v, pv)) for p, v in fz]
                d = ds[0][1]
                for p, x in ds[1:]:         # .. or by an amount that the rest of the path's condition decides
                    if x is not d:
                        d = ite(and_(*[c for c in conjuncts(p.cond) if not (symbols(c, set()) & own)]), x, d)
                if pv.sort == "int" and not (symbols(d, set()) & self.allpre) and loc not in self.guessed:
                    d = self.tidy(d)
                    self.guessed.add(loc)
                    kk = fresh("k")
                    self.offers[loc] = lambda n: D(add(lift(v0), sum_(kk, lift(n), subst(d, {i.args[0]: kk}))))
                    raise Restart()
                return None
            if self.depends(vs | syms, (loc,)):
                return None
            deltas = []
            for p, v in fz:
                d = sub(v, pv)
                ds = symbols(d, set())
                if ds & own:
                    return self.infer_mod(loc, fz, v0, pv)
                deltas.append((p, d))
            k = fresh("k")

            def acc(n):
                tot = lift(0, pv.sort)
                for p, d in deltas:
                    t = ite(self.resolve(p.cond, i, closed), self.resolve(d, i, closed), lift(0, pv.sort))
                    tot = add(tot, t)
                if len({d for _, d in deltas}) == 1:
                    tot = self.resolve(deltas[0][1], i, closed)
                kk = fresh("k")
                return D(add(lift(v0, pv.sort), sum_(kk, lift(n), subst(tot, {i.args[0]: kk}))))
            return acc
        # --- sequences (strings, lists, traces)
        if isinstance(pv, Seq) or isinstance(pv, Lst):
            if isinstance(pv, Lst) and loc[0] != "heap" and not (syms & own) and all(isinstance(v, Lst) for v in vals):
                fz = [(p, freeze(it, v, p.heap, self.heap0)) for p, v in ts]
                vs = set()
                for _, v in fz:
                    symbols(v, vs)
                if not (vs & own) and not self.depends(vs | syms):
                    return self.carried_temp(loc, fz, v0)
            return self.infer_seq(loc, ts, v0, syms)
        if isinstance(pv, Arr):
            return self.infer_array(loc, ts, v0, syms)
        if isinstance(pv, Nd):
            if syms & own:
                return None
            # rebinding of an array variable
            fz = [(p, freeze(it, v, p.heap, self.heap0)) for p, v in ts]
            vs = set()
            for _, v in fz:
                symbols(v, vs)
            if not (vs & own):
                if self.depends(vs | syms):
                    return None
                return self.carried_temp(loc, fz, v0)
            return self.infer_array_value(loc, fz, v0, syms)
        if isinstance(pv, tuple):
            fz = [(p, freeze(it, v, p.heap, self.heap0)) for p, v in ts]
            vs = set()
            for _, v in fz:
                symbols(v, vs)
            if not (vs & own) and not (syms & own) and not self.depends(vs | syms):
                return self.carried_temp(loc, fz, v0)
            return None
        return None

    def tidy(self, e):
        """Decide the cases of an amount that every iteration decides the same way."""
        c = self.it.ctx.clone()
        c.assume(and_(le(ic(0), self.i), lt(self.i, self.nn)))

        def walk(x):
            if not isinstance(x, E) or x.op not in ("poly", "ite"):
                return x
            if x.op == "ite" and not (symbols(x.args[0], set()) & self.allpre):
                if c.valid(x.args[0]):
                    return walk(x.args[1])
                if c.valid(not_(x.args[0])):
                    return walk(x.args[2])
                return x
            if x.op == "poly":
                out = lift(0, x.sort)
                for m, k in x.args[0]:
                    t = poly({(): k}, x.sort)
                    for a in m:
                        t = mul(t, walk(a))
                    out = add(out, t)
                return out
            return x
        return walk(e)

    def offered(self, loc, v0):
        """An invariant offered by the contract: g(k) is the value before iteration k.  The body is run from g(i); it is
        used only once inductive() has shown it."""
        if loc not in self.offers:
            self.offers[loc] = None
            for cand in self.it.candidates:
                g = cand(self.it, self, loc, v0)
                if g is not None:
                    self.offers[loc] = self.offered_value(g, v0)
                    break
        return self.offers[loc]

    def offered_value(self, g, v0):
        if isinstance(v0, Nd) and v0.sparse:
            def f(k):
                a = g(k)
                return Arr(a.shape, a.fn, a.sort, attrs=dict(a.attrs, sparse=v0.sparse)) if isinstance(a, Arr) else a
            return f
        return g

    def thaw2(self, v, v0):
        if isinstance(v, Arr) and isinstance(v0, Nd):
            return self.it.nd(v, sparse=v0.sparse)
        return self.thaw(v)

    def inductive(self, loc, ts, v0, g):
        """g(0) is the initial value, and the body takes g(i) to g(i+1) on every path."""
        it, i = self.it, self.i
        closed = dict(self.closed)
        closed[loc] = lambda k: g(lift(k))
        base = freeze(it, v0, self.heap0, self.heap0) if not isinstance(v0, E) else v0
        if not it.same_value(base, g(ic(0)), it.ctx):
            return False
        for p, v in ts:
            if isinstance(v0, Nd) and (not isinstance(v, Nd) or bool(v.sparse) != bool(v0.sparse)):
                return False
            fv = freeze(it, v, p.heap, self.heap0) if not isinstance(v, E) else v
            syms = symbols(fv, set())
            symbols(p.cond, syms)
            if self.depends(syms, (loc,)):
                return False
            m = {n: f for n, f in self.pre_map(i, closed).items()}
            fv = inst(fv, {}, m)
            c = it.ctx.clone()
            c.assume(and_(le(ic(0), i), lt(i, self.nn)))
            for d in p.facts:
                c.assume(repl(d, {}, m))
            failed = []
            if not it.same_value(fv, g(add(i, ic(1))), c, failed):
                if failed and loc not in self.guessed:
                    from .evalx import search
                    try:
                        cex = search(failed[-1][0].facts, failed[-1][1])
                    except TypeError:
                        cex = None
                    if cex is not None:
                        it.obligations.append(("loop invariant of %s at line %d is preserved" % (loc[-1], self.quals[1]), "unproved",
                                               "counterexample to the induction step: %s" % cex))
                return False
        it.obligations.append(("loop invariant of %s at line %d holds initially and is preserved" % (loc[-1], self.quals[1]),
                               "discharged", ""))
        return True

    def merged(self, fz, k, closed):
        """Value of the iteration k merged over its paths."""
        acc = None
        for p, v in reversed(fz):
            x = self.inst_at(v, k, closed)
            c = subst(self.resolve(p.cond, self.i, closed), {self.i.args[0]: lift(k)})
            acc = x if acc is None else self.it.merge(c, x, acc)
        return acc

    def carried_temp(self, loc, fz, v0):
        it = self.it

        def f(k):
            k = lift(k)
            if it.ctx.valid(eq(k, ic(0))):
                return v0
            last = self.merged(fz, sub(k, ic(1)), self.closed)
            if it.ctx.valid(lt(ic(0), k)):
                return last
            return it.merge(eq(k, ic(0)), freeze(it, v0, it.heap, it.heap), last)
        return f

    def infer_flag(self, loc, fz, v0):
        """Monotone flags: every path keeps the flag or sets it to one constant."""
        it, i = self.it, self.i
        name = self.pre_name(loc)
        own = self.prenames[loc]
        pv = self.pre[loc]
        sets = {TRUE: [], FALSE: []}
        for p, v in fz:
            if v is pv:
                continue
            # v = pv and X / pv or X
            if v.op == "and" and pv in v.args:
                x = and_(*[a for a in v.args if a is not pv])
                if symbols(x, set()) & own:
                    return None
                sets[FALSE].append(and_(p.cond, not_(x)))
            elif v.op == "or" and pv in v.args:
                x = or_(*[a for a in v.args if a is not pv])
                if symbols(x, set()) & own:
                    return None
                sets[TRUE].append(and_(p.cond, x))
            elif v in (TRUE, FALSE):
                sets[v].append(p.cond)
            else:
                if symbols(v, set()) & own:
                    return None
                # overwritten by a fresh value on this path
                sets.setdefault("free", []).append((p, v))
        if sets.get("free"):
            if all(v is not pv and not (symbols(v, set()) & own) for _, v in fz) and \
                    not any(symbols(p.cond, set()) & own for p, _ in fz):
                vs = set()
                for p, v in fz:
                    symbols(v, vs)
                    symbols(p.cond, vs)
                if self.depends(vs, (loc,)):
                    return None
                return self.carried_temp(loc, fz, v0)
            return None
        if sets[TRUE] and sets[FALSE]:
            return None
        to = TRUE if sets[TRUE] else FALSE
        c = or_(*sets[to])
        # once set, nothing changes: evaluate the condition with the flag at its other value
        c = repl(c, {}, {name: lambda: not_(to)})
        cs = symbols(c, set())
        if self.depends(cs, (loc,)):
            return None
        closed = self.closed

        def f(n):
            k = fresh("k")
            e = exists(k, lift(n), subst(self.resolve(c, i, closed), {i.args[0]: k}))
            return and_(lift(v0), not_(e)) if to is FALSE else or_(lift(v0), e)
        return f

    def infer_mod(self, loc, fz, v0, pv):
        """x = (x + d) % c"""
        it, i, own = self.it, self.i, self.prenames[loc]
        deltas, m = [], None
        for p, v in fz:
            if v is pv:
                deltas.append((p, ic(0)))
                continue
            if v.op != "mod":
                return None
            if m is not None and m is not v.args[1]:
                return None
            m = v.args[1]
            d = sub(v.args[0], pv)
            if symbols(d, set()) & own:
                return None
            deltas.append((p, d))
        if m is None or not it.ctx.valid(and_(le(ic(0), lift(v0)), lt(lift(v0), m))):
            return None

        def f(n):
            tot = add(*[ite(self.resolve(p.cond, i, self.closed), self.resolve(d, i, self.closed), ic(0)) for p, d in deltas])
            kk = fresh("k")
            return mod(add(lift(v0), sum_(kk, lift(n), subst(tot, {i.args[0]: kk}))), m)
        return f

    def infer_seq(self, loc, ts, v0, syms):
        it, i, own = self.it, self.i, self.prenames[loc]
        if syms & own:
            return None
        name = self.pre_name(loc)
        app_ = []
        vs = set(syms)
        lens = set()
        for p, v in ts:
            saved, it.heap = it.heap, p.heap
            try:
                s = it.seq(v)
            finally:
                it.heap = saved
            if not s.parts or not isinstance(s.parts[0], Pre) or s.parts[0].name != name:
                return self.infer_list_update(loc, ts, v0, syms)
            tail = freeze(it, Seq(s.kind, s.parts[1:]), p.heap, self.heap0)
            self.check_fresh(Seq(s.kind, s.parts[1:]), p)
            if name in symbols(tail, set()):
                return None
            symbols(tail, vs)
            ln = it.seq_len(tail)
            lens.add(ln if isinstance(ln, int) else None)
            app_.append((p, tail))
        if self.depends(vs, (loc,)):
            return None
        closed = self.closed
        kind = it.seq(v0).kind if not isinstance(v0, Lst) else "list"
        one = lens == {1} and all(len(t.parts) == 1 and isinstance(t.parts[0], Items) for _, t in app_)

        def item(k):
            acc = None
            for p, t in reversed(app_):
                x = self.inst_at(t, k, closed)
                c = subst(self.resolve(p.cond, i, closed), {i.args[0]: lift(k)})
                acc = x if acc is None else it.merge_seq(c, x, acc)
            return acc

        uniform = None
        if one and len(app_) > 1:
            try:
                def single(k):
                    acc = None
                    for p, t in reversed(app_):
                        x = self.inst_at(t.parts[0].vals[0], k, closed)
                        c = subst(self.resolve(p.cond, i, closed), {i.args[0]: lift(k)})
                        acc = x if acc is None else it.merge(c, x, acc)
                    return acc
                single(fresh("k"))
                uniform = single
            except Unsupported:
                uniform = None
        elif one:
            uniform = lambda k: self.inst_at(app_[0][1].parts[0].vals[0], k, closed)

        def f(n):
            base = it.seq(v0) if not isinstance(v0, Lst) else self.heap0[v0.ref]
            base = freeze(it, base, self.heap0, self.heap0) if isinstance(v0, Lst) else base
            n = D(n)
            if n == 0:
                return Seq(kind, base.parts)
            if uniform is not None:
                part = Sub(n, uniform)
            else:
                part = Loop(n, item)
            return Seq(kind, base.parts + (part,))
        return f

    def check_fresh(self, s, p):
        """Mutable objects kept by an iteration must have been created by it."""
        def walk(v):
            if isinstance(v, (Nd, Lst)):
                if v.ref in self.heap0:
                    w = self.heap0[v.ref]
                    if p.heap.get(v.ref) is not self.heap1.get(v.ref):
                        raise Unsupported("an object modified by the loop is kept by an iteration")
            elif isinstance(v, tuple):
                for x in v:
                    walk(x)
            elif isinstance(v, Seq):
                for q in v.parts:
                    if isinstance(q, Items):
                        for x in q.vals:
                            walk(x)
        walk(s)

    def infer_list_update(self, loc, ts, v0, syms):
        return None

    # ------------------------------------------------ arrays updated in place
    def infer_array(self, loc, ts, v0, syms):
        it, i, own = self.it, self.i, self.prenames[loc]
        name = self.pre_name(loc)
        if syms & own:
            return None
        if not isinstance(v0, Arr):
            return None
        fz = []
        for p, v in ts:
            if not isinstance(v, Arr):
                return None
            if len(v.shape) != len(v0.shape) or not it.shape_eq(v.shape, v0.shape):
                return None
            fz.append((p, v))
        return self.infer_array_value(loc, fz, v0, syms)

    def infer_array_value(self, loc, fz, v0, syms):
        """Cellwise: the new value of a cell depends on the old value of that cell only."""
        it, i, own = self.it, self.i, self.prenames[loc]
        name = self.pre_name(loc)
        a0 = it.arr(v0) if not isinstance(v0, Arr) else v0
        for p, v in fz:
            if len(v.shape) != len(a0.shape) or not it.shape_eq(v.shape, a0.shape):
                return None
        cell = [fresh("c") for _ in a0.shape]
        c = it.ctx.clone()
        c.assume(and_(le(ic(0), i), lt(i, self.nn)))
        for x, d in zip(cell, a0.shape):
            c.assume(and_(le(ic(0), x), lt(x, lift(d))))
        vs = set(syms)
        steps = []
        sort = a0.sort
        for p, v in fz:
            if v.sort == "cx":
                sort = "cx"
        for p, v in fz:
            cp = c.clone()
            for d in p.facts:
                cp.assume(d)
            e = cp.simp(lift(v.fn(*cell), sort))
            steps.append((p, e))
            symbols(e, vs)
        if self.depends(vs, (loc,)):
            return None
        old = lift(app(name, *cell, sort=a0.sort) if cell else var(name, a0.sort), sort)
        oldraw = app(name, *cell, sort=a0.sort) if cell else var(name, a0.sort)
        # only the same cell of the old array is read
        for _, e in steps:
            for x in subterms(e):
                if x.op == "app" and x.args[0] == name and x is not oldraw:
                    return None
        closed = self.closed
        tot = None
        for p, e in reversed(steps):
            cc_ = self.resolve(p.cond, i, closed)
            ee = repl(e, {}, {k: f for k, f in self.pre_map(i, closed).items()})
            tot = ee if tot is None else ite(cc_, ee, tot)
        tot = c.simp(tot)
        # (1) member-driven writes: tot = ite(m, w, old) with m determining i
        m, w = split_old(tot, oldraw, old)
        cells = {x.args[0] for x in cell}
        base = lambda idx: lift(a0.fn(*idx), sort)
        shape = a0.shape

        def at(e, idx, k):
            mm = {x.args[0]: lift(y, "int") for x, y in zip(cell, idx)}
            ph = fresh("w")
            e = subst(e, {i.args[0]: ph})
            e = subst(e, mm)
            return subst(e, {ph.args[0]: lift(k)})
        res = None
        if m is not None:
            k = solve_index(m, i)
            if k is not None:
                # the only iteration that can touch the cell is k(cell): the old value it reads is the initial one
                def f(n):
                    def fn(*idx):
                        kk = at(k, idx, ic(0))
                        hit = and_(le(ic(0), kk), lt(kk, lift(n)), at(m, idx, kk))
                        val = at(w, idx, kk)
                        val = repl(val, {}, {name: lambda *j: a0.fn(*j)})
                        return ite(hit, val, base(idx))
                    return Arr(shape, fn, sort, attrs=a0.attrs)
                return f
            found = solve_indices(m, i)
            ks = self.ordered(found, c) or self.exclusive(found, m, c)
            if ks is not None:
                # only these iterations can touch the cell, and they come in this order
                def f(n):
                    def fn(*idx):
                        val, done = base(idx), []
                        for k in ks:
                            kk = at(k, idx, ic(0))
                            hit = and_(le(ic(0), kk), lt(kk, lift(n)), at(m, idx, kk), *[ne(kk, d) for d in done])
                            new = repl(at(w, idx, kk), {}, {name: lambda *j, val=val: val})
                            val = ite(hit, new, val)
                            done.append(kk)
                        return val
                    return Arr(shape, fn, sort, attrs=a0.attrs)
                return f
            if name not in symbols(w, set()) :
                # last writer wins
                return None
        # (2) accumulation: tot = old + d
        d = sub(tot, old) if tot.sort != "bool" else None
        if d is not None and name not in symbols(d, set()):
            def f(n):
                def fn(*idx):
                    k = fresh("k")
                    return add(base(idx), sum_(k, lift(n), at(d, idx, k)))
                return Arr(shape, fn, sort, attrs=a0.attrs)
            return f
        # (3) accumulation modulo a constant, for old values already reduced
        r = split_mod(tot, oldraw, old)
        if r is not None and r[1] is not None:
            d, md = r
            if name not in symbols(d, set()):
                b = base(cell)
                cz = it.ctx.clone()
                for x, q in zip(cell, shape):
                    cz.assume(and_(le(ic(0), x), lt(x, lift(q))))
                if cz.valid(and_(le(ic(0), b), lt(b, md))):
                    def f(n):
                        def fn(*idx):
                            k = fresh("k")
                            return mod(add(base(idx), sum_(k, lift(n), at(d, idx, k))), md)
                        return Arr(shape, fn, sort, attrs=a0.attrs)
                    return f
        # (4) completely overwritten
        if name not in symbols(tot, set()):
            def f(n):
                def fn(*idx):
                    return ite(lt(ic(0), lift(n)), at(tot, idx, sub(lift(n), ic(1))), base(idx))
                return Arr(shape, fn, sort, attrs=a0.attrs)
            return f
        return None

    def exclusive(self, ks, m, c):
        """The iterations, if no cell is written by two different ones of them (then their order does not matter)."""
        if ks is None or len(ks) > 3:
            return None
        hit = lambda x: and_(le(ic(0), x), lt(x, self.nn), subst(m, {self.i.args[0]: x}))
        for a, x in enumerate(ks):
            for y in ks[a + 1:]:
                if not c.valid(not_(and_(hit(x), hit(y), ne(x, y)))):
                    return None
        return list(ks)

    def ordered(self, ks, c):
        """The expressions in an order that the context proves increasing."""
        if ks is None or len(ks) > 3:
            return None
        import itertools
        for p in itertools.permutations(ks):
            if all(c.valid(le(x, y)) for x, y in zip(p, p[1:])):
                return list(p)
        return None

    # ------------------------------------------------ at-most-once updates (a flag guards the only change)
    def first_hit(self, norm, exits):
        it, i = self.it, self.i
        if exits:
            return False
        for floc in self.carried:
            pv = self.pre[floc]
            if not (isinstance(pv, E) and pv.sort == "bool"):
                continue
            v0 = lift(self.read(floc, self.heap0, self.env0))
            name = self.pre_name(floc)
            for on in (TRUE, FALSE):
                if v0 is not on:
                    continue
                hits, ok = [], True
                for p in norm:
                    changed = [l for l in self.carried if l != floc and not self.unchanged(l, self.after(l, p))]
                    fv = lift(self.after(floc, p))
                    dead = repl(p.cond, {}, {name: lambda: not_(on)})
                    if fv is not_(on):
                        if dead is not FALSE and not (not changed and False):
                            # the change also happens with the flag down
                            if changed:
                                ok = False
                        hits.append(p)
                    elif changed or fv is not pv:
                        ok = False
                if not ok or not hits or not any(
                        [l for p in hits for l in self.carried if l != floc and not self.unchanged(l, self.after(l, p))]):
                    continue
                cond = or_(*[repl(p.cond, {}, {name: lambda: on}) for p in hits])
                # before the hit every location has its initial value
                init = {l: (lambda v: lambda k: v)(self.read(l, self.heap0, self.env0)) for l in self.carried}
                self.closed = init
                cond = self.resolve(cond, i, init)
                k = fresh("k")
                ck = subst(cond, {i.args[0]: k})
                if it.branch(exists(k, self.nn, ck)):
                    fi = first(k, self.nn, ck)
                    it.ctx.assume(and_(le(ic(0), fi), lt(fi, self.nn), subst(cond, {i.args[0]: fi})))
                    it.ctx.assume(not_(exists(k, fi, ck)))
                    self.goto(ic(0), init)
                    try:
                        self.body(fi)
                    except ContinueSig:
                        pass
                else:
                    self.goto(ic(0), init)
                for x in self.names:
                    if ("env", x) not in self.carried:
                        self.frame.env[x] = Opaque("maybe-unbound")
                self.orelse()
                return True
        return False

    # ------------------------------------------------ loop specifications of the contract
    def find_spec(self):
        """A specification is offered by the contract through it.loop_specs: callables (summary) -> spec or None."""
        for s in getattr(self.it, "loop_specs", []):
            r = s(self)
            if r is not None:
                return r
        return None

    def by_spec(self, spec):
        """spec.init(), spec.enter(i) puts an arbitrary state before iteration i in place (assuming the invariant),
        spec.check(i) obliges the invariant after the body."""
        it, frame = self.it, self.frame
        self.env0, self.heap0 = dict(frame.env), dict(it.heap)
        spec.start(self)
        spec.check(self, ic(0), "holds initially")
        c = it.ctx.clone()
        i = self.i
        c.assume(and_(le(ic(0), i), lt(i, self.nn)))
        saved, it.ctx = it.ctx, c

        def step():
            for x in self.names:
                frame.env[x] = POISON
            spec.enter(self, i)
            try:
                self.body(i)
            except ContinueSig:
                pass
            spec.check(self, add(i, ic(1)), "is preserved")
            return None
        try:
            paths = it.explore(step, frame)
        except NeedPre as e:
            raise Unsupported("loop specification does not cover %s" % (e.loc,))
        finally:
            it.ctx = saved
            it.heap = dict(self.heap0)
            frame.env = dict(self.env0)
        for p in paths:
            if p.out[0] not in ("normal",) and not spec.exit_ok(self, p):
                raise Unsupported("the loop may be left by %s" % p.out[0])
        broken = any(p.out[0] == "break" for p in paths)
        for p in paths:
            for r in self.heap0:
                if p.heap.get(r) is not self.heap0[r] and not spec.covers(self, r, p):
                    raise Unsupported("loop specification does not cover the heap object %s" % r)
        if broken and it.branch(var(fresh("left").args[0], "bool")):
            # left in some iteration, which started from a state with the invariant
            j = fresh("j")
            it.ctx.assume(and_(le(ic(0), j), lt(j, self.nn)))
            for x in self.names:
                frame.env[x] = POISON
            spec.enter(self, j)
            try:
                self.body(j)
            except BreakSig:
                spec.left(self, j)
                return
            except ContinueSig:
                pass
            raise PathDead()
        for x in self.names:
            frame.env[x] = Opaque("maybe-unbound")
        spec.enter(self, self.nn)
        self.orelse()


def split_old(e, oldraw, old):
    """e = ite(m, w, old) -> (m, w)"""
    if e is oldraw or e is old:
        return FALSE, e
    if e.op != "ite":
        return TRUE, e
    c, a, b = e.args
    ma, wa = split_old(a, oldraw, old)
    mb, wb = split_old(b, oldraw, old)
    m = or_(and_(c, ma), and_(not_(c), mb))
    if mb is FALSE:
        return m, wa
    if ma is FALSE:
        return m, wb
    return m, ite(c, wa, wb)


def conjuncts(m):
    return list(m.args) if m.op == "and" else [m]


def solve_index(m, i):
    """An expression k (free of i) with m(i) => i = k."""
    cands = None
    for here in index_candidates(m.args if m.op == "or" else (m,), i):
        cands = here if cands is None else cands & here
    return sorted(cands, key=lambda x: x.key)[0] if cands else None


def solve_indices(m, i):
    """Expressions k (free of i) with m(i) => i is one of them."""
    out = []
    for here in index_candidates(dnf(m), i):
        if not here:
            return None
        if not any(k in here for k in out):
            out.append(sorted(here, key=lambda x: x.key)[0])
    return out


def dnf(m, limit=64):
    if m.op == "or":
        r = [y for x in m.args for y in dnf(x, limit)]
    elif m.op == "and":
        r = [()]
        for x in m.args:
            r = [a + (y,) for a in r for y in dnf(x, limit)]
            if len(r) > limit:
                return [m]
        r = [and_(*x) for x in r]
    elif m.op == "not" and m.args[0].op in ("and", "or"):
        inner = m.args[0]
        return dnf((or_ if inner.op == "and" else and_)(*[not_(x) for x in inner.args]), limit)
    else:
        return [m]
    r = [x for x in r if x is not FALSE]
    return r if len(r) <= limit else [m]


def index_candidates(ds, i):
    for d in ds:
        here = set()
        for x in conjuncts(d):
            if x.op == "eq0" and i.args[0] in x.fv:
                p = pdict(x.args[0])
                c = p.get((i,))
                if c in (1, -1) and not any(i.args[0] in y.fv for mm in p if mm != (i,) for y in mm):
                    here.add(poly({mm: -v * c for mm, v in p.items() if mm != (i,)}, "int"))
                elif isinstance(c, int) and 1 < abs(c) <= 8 and not any(i.args[0] in y.fv for mm in p if mm != (i,) for y in mm):
                    # c i = x: i = (x + b) div c for every 0 <= b < c
                    sg = -1 if c > 0 else 1
                    for b in range(abs(c)):
                        here.add(div(add(poly({mm: v * sg for mm, v in p.items() if mm != (i,)}, "int"), ic(b)), ic(abs(c))))
        # a block  m*i <= x < m*(i+1)
        for x in conjuncts(d):
            if x.op == "le" and i.args[0] in x.fv:
                p = pdict(x.args[0])
                withi = [(mm, v) for mm, v in p.items() if any(i.args[0] in y.fv for y in mm)]
                if len(withi) == 1 and withi[0][1] == 1 and i in withi[0][0]:
                    mm = list(withi[0][0])
                    mm.remove(i)
                    if any(i.args[0] in y.fv for y in mm):
                        continue
                    stride = poly({tuple(mm): 1}, "int")
                    xx = neg(poly({a: v for a, v in p.items() if a != withi[0][0]}, "int"))   # stride*i <= xx
                    other = le(add(xx, ic(1)), mul(stride, add(i, ic(1))))
                    if other in conjuncts(d):
                        here.add(div(xx, stride))
        yield here


def split_mod(e, oldraw, old):
    """e = ite(c, (old + d) mod m, old) ...: (d, m) with e = (old + d) mod m for reduced old."""
    if e is oldraw or e is old:
        return ic(0), None
    if e.op == "mod":
        return sub(e.args[0], old), e.args[1]
    if e.op == "ite":
        c, a, b = e.args
        ra, rb = split_mod(a, oldraw, old), split_mod(b, oldraw, old)
        if ra is None or rb is None:
            return None
        if ra[1] is not None and rb[1] is not None and ra[1] is not rb[1]:
            return None
        return ite(c, ra[0], rb[0]), rb[1] if ra[1] is None else ra[1]
    return None


# ---------------------------------------------------------------- comprehensions
def comprehension(it, e, frame, kind):
    """[elt for x in seq ...]: as the loop appending elt."""
    f = Frame(frame.mod, frame.cls, {}, frame)
    out = it.lst()
    f.env["#out"] = out

    def gen(level):
        if level == len(e.generators):
            v = it.eval(e.elt, f)
            it.heap[out.ref] = it.heap[out.ref].append([v])
            return
        g = e.generators[level]
        node = ast.For(target=g.target, iter=g.iter, body=[], orelse=[], lineno=e.lineno)
        src = it.eval(g.iter, f if level else frame)
        s = it.iter_seq(src)
        n = it.seq_len(s)
        if isinstance(n, E):
            n = D(it.ctx.simp(n))

        def body(v):
            it.assign(g.target, v, f)
            for c in g.ifs:
                if not it.branch(it.truth(it.eval(c, f))):
                    return
            gen(level + 1)
        if isinstance(n, int) and n <= 64:
            for i in range(n):
                body(it.wrap_item(s, it.seq_get(s, i)))
            return
        names = assigned(g.target)
        for g2 in e.generators[level + 1:]:
            names |= assigned(g2.target)
        iterate(it, f, s, n, body, names, node)
    gen(0)
    return out


def set_comprehension(it, e, frame):
    lst = comprehension(it, e, frame, "list")
    seq = it.heap[lst.ref]
    return Sp("set", items=(), elems=seq, member=lambda x: it.some_element(seq, x))
