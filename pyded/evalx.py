"""Concrete evaluation of symbolic expressions, to look for counterexamples to an unproved obligation.

Uninterpreted functions get pseudo-random tables; only used when no axioms constrain them.
"""
import random
import time

from .expr import *


class Ev:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.env = {}
        self.tab = {}
        self.interp = {}
        self.pool = ()

    def table(self, name, args, sort):
        k = (name, args, sort)
        if k not in self.tab:
            if sort == "int":
                v = self.rng.choice(self.pool) if self.pool and self.rng.random() < 0.6 else self.rng.randint(0, 1)
            elif sort == "bool":
                v = self.rng.random() < 0.5
            elif sort == "cx":
                re, im = self.rng.randint(-4, 4), self.rng.randint(-4, 4)
                if name.startswith("real:"):
                    im = 0
                if name.startswith("herm:"):
                    if args[0] == args[1]:
                        im = 0
                    self.tab[(name, (args[1], args[0]), sort)] = complex(re, -im)
                v = complex(re, im)
            else:
                v = ("obj", name, args)
            self.tab[k] = v
        return self.tab[k]

    def ev(self, e, env):
        op, a = e.op, e.args
        f = lambda x: self.ev(x, env)
        if op == "bool":
            return a[0]
        if op == "var":
            if a[0] in env:
                return env[a[0]]
            return self.table("var:" + a[0], (), e.sort)
        if op == "poly":
            tot = 0
            for m, c in a[0]:
                t = c if not isinstance(c, tuple) else complex(float(c[0]), float(c[1]))
                for x in m:
                    t = t * f(x)
                tot = tot + t
            return tot
        if op == "not":
            return not f(a[0])
        if op == "and":
            return all(f(x) for x in a)
        if op == "or":
            return any(f(x) for x in a)
        if op == "le":
            return f(a[0]) <= 0
        if op == "rle":
            return complex(f(a[0])).real <= 1e-9
        if op == "eq0":
            return f(a[0]) == 0
        if op == "ceq0":
            return abs(f(a[0])) < 1e-9
        if op in ("iff", "eq"):
            return f(a[0]) == f(a[1])
        if op == "ite":
            return f(a[1]) if f(a[0]) else f(a[2])
        if op == "div":
            return f(a[0]) // f(a[1])
        if op == "mod":
            return f(a[0]) % f(a[1])
        if op == "conj":
            return complex(f(a[0])).conjugate()
        if op == "ofint":
            return complex(f(a[0]))
        if op in BINDERS:
            name, hi, b = a
            n = f(hi)
            if n > 4000:
                raise OverflowError
            vals = lambda: (self.ev(b, dict(env, **{name: i})) for i in range(n))
            if op == "sum":
                return sum(vals())
            if op == "exists":
                return any(vals())
            if op == "first":
                for i, v in enumerate(vals()):
                    if v:
                        return i
                return self.table("first:" + e.key, tuple(sorted(env.items())), "int")
            if op == "lam":
                return tuple(vals())
        if op == "app":
            args = tuple(f(x) for x in a[1:])
            if a[0] == "pow":
                return args[0] ** args[1] if args[1] >= 0 else 0
            if a[0] == "real:abs":
                return complex(abs(args[0]))
            if a[0] == "inv":
                return 1 / args[0]
            if a[0] in ("real:pos", "real:sqrt", "sqrt"):
                raise OverflowError("no exact value")
            if a[0] in self.interp:
                return self.interp[a[0]](self, *args)
            return self.table(a[0], args, e.sort)
        raise TypeError(op)


def dims_of(facts, goal):
    names = {}
    for x in list(facts) + [goal]:
        for y in subterms(x):
            if y.op == "var" and y.args[0] in x.fv and y.sort == "int":
                names[y.args[0]] = y
    return sorted(names)


def constants(es):
    """Integer constants beyond the default sampling range."""
    out = set()
    for e in es:
        for x in subterms(e):
            if x.op == "poly" and x.sort == "int":
                for m, c in x.args[0]:
                    if not m and 2 <= abs(c) <= 10000:
                        out.add(abs(c))
    return sorted(out)


def search(facts, goal, tries=300, seed=1, interp=None, hi=4, seconds=30):
    """An assignment with all facts true and the goal false, or None."""
    names = dims_of(facts, goal)
    rng = random.Random(seed)
    pool = constants(list(facts) + [goal])
    steps = [c for c in pool if hi < c <= 40]
    t0 = time.time()
    for t in range(tries * (3 if steps else 1)):
        if time.time() - t0 > seconds:
            return None
        ev = Ev(rng.random())
        ev.interp = interp or {}
        ev.pool = tuple(pool)
        top = hi if t < tries or not steps else rng.choice(steps) + 3
        env = {n: rng.randint(0, top) if top == hi or rng.random() < 0.5 else rng.randint(max(0, top - 6), top) for n in names}
        try:
            if not all(ev.ev(x, env) for x in facts):
                continue
            if not ev.ev(goal, env):
                return dict(env)
        except (ZeroDivisionError, OverflowError, RecursionError):
            continue
    return None
