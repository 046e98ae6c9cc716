"""Symbolic values of the interpreter."""
from .expr import *


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the obligation is undecided."""


def D(x):
    """A dimension: Python int when constant."""
    if isinstance(x, E):
        c = const_of(x)
        return c if c is not None and not isinstance(c, tuple) else x
    return x


class Promote(Exception):
    """A float array created at this call stores non-integers: run again with real entries."""

    def __init__(self, site):
        self.site = site


class Arr:
    """An n-d array value: shape and element function (total on the index range)."""
    __slots__ = ("shape", "fn", "sort", "upd", "pre", "attrs")

    def __init__(self, shape, fn, sort, upd=None, pre=None, attrs=None):
        self.shape = tuple(D(s) for s in shape)
        self.fn = fn
        self.sort = sort
        self.upd = upd      # (previous Arr, member(idx)->E, value(idx)->E)
        self.pre = pre      # placeholder name in a loop summary
        self.attrs = attrs or {}

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return "Arr%s" % (self.shape,)


class Nd:
    """A reference to an array in the heap, possibly through a view."""
    __slots__ = ("ref", "shape", "imap", "ro", "sparse")

    def __init__(self, ref, shape=None, imap=None, ro=False, sparse=False):
        self.ref, self.shape, self.imap, self.ro, self.sparse = ref, shape, imap, ro, sparse


class Lst:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


class Obj:
    __slots__ = ("ref", "cls")

    def __init__(self, ref, cls):
        self.ref, self.cls = ref, cls


class Fn:
    __slots__ = ("node", "frame", "cls", "mod", "bound", "name")

    def __init__(self, node, frame, mod, cls=None, bound=None, name=None):
        self.node, self.frame, self.mod, self.cls, self.bound, self.name = node, frame, mod, cls, bound, name


class Builtin:
    __slots__ = ("name", "bound")

    def __init__(self, name, bound=None):
        self.name, self.bound = name, bound

    def __repr__(self):
        return "Builtin(%s)" % self.name


class Cls:
    __slots__ = ("mod", "node", "name")

    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name


class Opaque:
    """A value only passed around (an engine, a flag object...), equal to itself."""
    __slots__ = ("name", "attrs")

    def __init__(self, name, attrs=None):
        self.name, self.attrs = name, attrs or {}

    def __repr__(self):
        return "<%s>" % self.name


class Sp:
    """Special Python-side object with a method table (used for models of libraries)."""
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)

    def __repr__(self):
        return "<sp %s>" % self.name


POISON = Opaque("poison")


# ---------------------------------------------------------------- sequences
class Seq:
    """list / tuple / str / trace as a concatenation of parts."""
    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts=()):
        self.kind = kind
        self.parts = tuple(parts)

    def __repr__(self):
        return "Seq(%s,%s)" % (self.kind, list(self.parts))

    def append(self, vals):
        if not vals:
            return self
        if self.parts and isinstance(self.parts[-1], Items):
            return Seq(self.kind, self.parts[:-1] + (Items(self.parts[-1].vals + tuple(vals)),))
        return Seq(self.kind, self.parts + (Items(tuple(vals)),))

    def concat(self, other):
        s = self
        for p in other.parts:
            s = s.append(p.vals) if isinstance(p, Items) else Seq(s.kind, s.parts + (p,))
        return s


class Items:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return "Items%s" % (self.vals,)


class Sub:
    """n elements fn(0..n-1)"""
    __slots__ = ("n", "fn")

    def __init__(self, n, fn):
        self.n, self.fn = D(n), fn

    def __repr__(self):
        return "Sub(%s)" % (self.n,)


class Loop:
    """concatenation of fn(0), ..., fn(n-1), each a Seq"""
    __slots__ = ("n", "fn")

    def __init__(self, n, fn):
        self.n, self.fn = D(n), fn

    def __repr__(self):
        return "Loop(%s)" % (self.n,)


class Nest(Loop):
    """a Loop that iteration takes apart into nested loops"""
    __slots__ = ()


class If:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return "If(%s,%s,%s)" % (self.cond, self.a, self.b)


class Pre:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Pre(%s)" % self.name


class Tuple:
    """An immutable heterogeneous Python tuple is just a Python tuple; this marks namedtuple-like results."""


def is_scalar(v):
    return isinstance(v, (int, float, bool, complex, Fraction)) or (isinstance(v, E) and v.sort in ("int", "bool", "cx"))


def spflag(v):
    """The sparse format an array is held in, or False."""
    if isinstance(v, Nd):
        return v.sparse or False
    if isinstance(v, Arr):
        return v.attrs.get("sparse") or False
    return False
