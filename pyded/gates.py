"""projectq: gates append events to a ghost trace (heap["TRACE"]); what they do to the state is said by the semantics in
contracts/circuits.py.  Events:

("gate", name, params, qubits, controls)   qubits, controls: tuples of (register name, index)
("flush", deallocate)                      ("measure", qubit)  ("read", qubit)   ("alloc", register, size)
("call", name, register, parts..)          a user's circuit on the register
"""
from .expr import *
from .values import *

GATES = {"X": "X", "XGate": "X", "NOT": "X", "Y": "Y", "YGate": "Y", "Z": "Z", "ZGate": "Z", "H": "H", "HGate": "H",
         "S": "S", "SGate": "S", "Sdag": "Sdag", "Sdagger": "Sdag", "T": "T", "TGate": "T", "CNOT": "CX", "CX": "CX", "CZ": "CZ",
         "Measure": "Measure", "MeasureGate": "Measure", "SwapGate": "Swap", "Swap": "Swap"}
CLASSES = {"XGate", "YGate", "ZGate", "HGate", "SGate", "TGate", "MeasureGate", "SwapGate"}


def qubit(reg, i):
    return Sp("qubit", reg=reg, idx=lift(i))


def register(it, name, n):
    """A register of n qubits, as the list that a Qureg is."""
    return Lst(it.new(Seq("list", (Sub(n, lambda i: qubit(name, i)),))))


def emit(it, ev):
    it.heap["TRACE"] = it.heap["TRACE"].append([ev])


def engine(it, n=None):
    """An engine with n active qubits."""
    e = Sp("engine", active=n)
    e.attr = lambda it, name: engine_attr(it, e, name)
    return e


def engine_attr(it, e, name):
    def call(f):
        return Opaque("engine." + name, attrs={"call": f})
    it.trusted.add("projectq.MainEngine." + name)
    if name == "flush":
        def flush(it, args, kwargs):
            d = args[0] if args else kwargs.get("deallocate_qubits", False)
            emit(it, ("flush", bool(d)))
            return None
        return call(flush)
    if name == "active_qubits":
        if e.active is None:
            raise Unsupported("number of active qubits")
        return register(it, "active", e.active)
    if name in ("allocate_qubit", "allocate_qureg"):
        def alloc(it, args, kwargs):
            k = it.heap.get("ALLOCATED", 0)
            it.heap["ALLOCATED"] = k + 1
            n = ic(1) if name == "allocate_qubit" else lift((list(args) + list(kwargs.values()))[0])
            reg = "new%d" % k
            emit(it, ("alloc", reg, n))
            return qubit(reg, 0) if name == "allocate_qubit" else register(it, reg, n)
        return call(alloc)
    if name == "backend":
        b = Sp("backend")

        def battr(it, m):
            if m != "set_wavefunction":
                raise Unsupported("backend." + m)

            def setw(it, args, kwargs):
                emit(it, ("set", args[0], args[1]))
                return None
            return Opaque("backend." + m, attrs={"call": setw})
        b.attr = battr
        return b
    raise Unsupported("engine." + name)


def as_gate(v):
    if isinstance(v, Sp) and v.name == "gate":
        return v
    if isinstance(v, Builtin) and v.bound is None and v.name.startswith("projectq.ops."):
        n = v.name.rsplit(".", 1)[1]
        if n in GATES and n not in CLASSES:
            return Sp("gate", gate=GATES[n], params=())
    return None


def call(it, name, args, kwargs):
    it.trusted.add(name)
    n = name.rsplit(".", 1)[1]
    if name.startswith("projectq.meta."):
        if n == "Control":
            return Sp("Control", qubits=tuple(keys(it, args[1] if len(args) > 1 else kwargs["qubits"])))
        raise Unsupported(name)
    if n in CLASSES and not args:
        return Sp("gate", gate=GATES[n], params=())
    if n in ("R", "Rx", "Ry", "Rz", "Ph"):
        a = args[0] if args else list(kwargs.values())[0]
        if isinstance(a, (Nd, Arr)):
            x = it.arr(a)
            if any(d != 1 for d in x.shape):
                raise Unsupported("angle %r" % (a,))
            a = x.fn(*[ic(0)] * x.ndim)
        return Sp("gate", gate=n, params=(lift(a, "cx"),))
    if n == "QubitOperator":
        term = args[0]
        co = args[1] if len(args) > 1 else kwargs.get("coefficient", 1)
        if isinstance(term, str) and len(term) > 1 and term[0] in "XYZ" and term[1:].isdigit():
            letter, i = term[0], ic(int(term[1:]))
        elif isinstance(term, Sp) and term.name == "strint" and getattr(term, "prefix", "") in ("X", "Y", "Z"):
            letter, i = term.prefix, term.value
        else:
            raise Unsupported("QubitOperator(%r)" % (term,))
        return Sp("gate", gate="Pauli", params=(letter, lift(i), lift(co, "cx")))
    if n in ("All", "Tensor"):
        g = as_gate(args[0])
        if g is None:
            raise Unsupported("All(%r)" % (args[0],))
        return Sp("gate", gate="All", params=(g,))
    if n in ("C", "ControlledGate"):
        g = as_gate(args[0])
        if g is None or len(args) > 1 and args[1] != 1:
            raise Unsupported(name)
        return Sp("gate", gate="C", params=(g,))
    raise Unsupported(name)


def keys(it, q):
    """The qubits meant by a gate's right-hand side."""
    if isinstance(q, Sp) and q.name == "qubit":
        return [(q.reg, q.idx)]
    if isinstance(q, (Lst, tuple)):
        out = []
        for x in it.concrete_items(q):
            out += keys(it, x)
        return out
    raise Unsupported("qubit expected: %r" % (q,))


def apply(it, g, target):
    g = as_gate(g)
    ctrl = tuple(it.heap["CTRL"])
    if g.gate == "All":
        s = it.iter_seq(target)
        sub_ = g.params[0]

        def ev(x):
            out = events(it, sub_, keys(it, x), ctrl)
            if len(out) != 1:
                raise Unsupported("All of a gate of more than one qubit")
            return out[0]
        n = it.seq_len(s)
        if isinstance(n, int):
            it.heap["TRACE"] = it.heap["TRACE"].append([ev(it.seq_get(s, i)) for i in range(n)])
        else:
            it.heap["TRACE"] = it.heap["TRACE"].concat(Seq("trace", (Sub(n, lambda i: ev(it.seq_get(s, i))),)))
        return
    if g.gate == "Pauli":
        letter, i, co = g.params
        q = it.seq_get(it.seq(target), i)
        return emit(it, ("gate", "Pauli", (letter, co), tuple(keys(it, q)), ctrl))
    it.heap["TRACE"] = it.heap["TRACE"].append(events(it, g, keys(it, target), ctrl))


def events(it, g, ks, ctrl):
    if g.gate == "C":
        return events(it, g.params[0], ks[1:], ctrl + (ks[0],))
    if g.gate in ("CX", "CZ"):
        if len(ks) != 2:
            raise Unsupported("%s on %d qubits" % (g.gate, len(ks)))
        return [("gate", g.gate[1], (), (ks[1],), ctrl + (ks[0],))]
    if g.gate == "Measure":
        if ctrl:
            raise Unsupported("controlled measurement")
        return [("measure", k) for k in ks]
    if g.gate == "Swap":
        raise Unsupported("swap")
    if len(ks) != 1:
        raise Unsupported("one-qubit gate %s on %d qubits" % (g.gate, len(ks)))
    return [("gate", g.gate, g.params, (ks[0],), ctrl)]


def measured(it, q):
    """int(qubit) after a measurement: a bit, the outcome."""
    emit(it, ("read", (q.reg, q.idx)))
    epoch = (it.heap["EPOCH"],) if "EPOCH" in it.heap else ()
    return ite(app("outcome:" + q.reg, q.idx, *epoch, sort="bool"), ic(1), ic(0))
