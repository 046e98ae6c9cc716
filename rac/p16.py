"""Composition and tensor product of channels."""
from rac.common import *
from rac.p13 import build, apply, KINDS
from PyQCodes.chan._kraus import DenseKraus, SparseKraus
from sparse import COO

GROUPS = []


def two(c):
    rng = np.random.default_rng(c["s"])
    a = rnd_kraus(rng, c["ma"], c["dai"] ** c["qai"], c["dao"] ** c["qao"])
    b = rnd_kraus(rng, c["mb"], c["dbi"] ** c["qbi"], c["dbo"] ** c["qbo"])
    return rng, a, b


def cases2(rng, serial, cap=40):
    while True:
        c = dict(qai=int(rng.integers(1, 3)), qao=int(rng.integers(1, 3)), dai=int(rng.integers(1, 4)),
                 dao=int(rng.integers(1, 4)), qbi=int(rng.integers(1, 3)), qbo=int(rng.integers(1, 3)),
                 dbi=int(rng.integers(1, 4)), dbo=int(rng.integers(1, 4)),
                 ma=int(rng.integers(1, 4)), mb=int(rng.integers(1, 4)), s=int(rng.integers(1 << 30)))
        if serial:
            ways = [(b, q) for b in (1, 2, 3, 4, 9) for q in (1, 2)
                    if b ** q == c["dai"] ** c["qai"]]
            c["dbo"], c["qbo"] = ways[rng.integers(len(ways))]
        di, do = c["dai"] ** c["qai"], c["dao"] ** c["qao"]
        ei, eo = c["dbi"] ** c["qbi"], c["dbo"] ** c["qbo"]
        c["ma"], c["mb"] = max(c["ma"], -(-di // do)), max(c["mb"], -(-ei // eo))
        if max(di * ei, do * eo) > cap or c["ma"] * c["mb"] > 30:
            continue
        c["kind"], c["kind2"] = KINDS[rng.integers(4)], None
        c["kind2"] = c["kind"] if c["kind"][0] in "ds" else KINDS[rng.integers(2, 4)]
        yield c


def objs(c, a, b):
    return (build(c["kind"], a, [c["qai"], c["qao"]], c["dai"], c["dao"]),
            build(c["kind2"], b, [c["qbi"], c["qbo"]], c["dbi"], c["dbo"]))


def ops_of(kind, obj):
    return dense(obj.kraus_ops if kind in ("dense", "sparse") else obj.kraus)


def dims(obj, kind):
    if kind in ("dense", "sparse"):
        return obj.input_dim, obj.output_dim
    return obj.input_dimension, obj.output_dimension


def meta_ok(obj, din, dout):
    q = obj.numb_qubits
    need(obj.dim_in ** q[0] == din and obj.dim_out ** q[1] == dout,
         "dims %s,%s with qubits %s instead of %d -> %d" % (obj.dim_in, obj.dim_out, q, din, dout))


@group(GROUPS, "serial", ["DenseKraus.__add__", "SparseKraus.__add__", "AnalyticQChan.__add__",
                          "DenseKraus.serial_concatenate", "SparseKraus.serial_concatenate"],
       "A + B is rho -> A(B(rho)), with B's input and A's output dimensions")
class A:
    def cases(rng, tier):
        return cases2(rng, True)

    def check(c):
        rng, a, b = two(c)
        A, B = objs(c, a, b)
        S = A + B
        want = np.array([x @ y for x in a for y in b])
        din, dout = b.shape[2], a.shape[1]
        close(ops_of(c["kind"], S), want, "Kraus operators of A + B")
        need(dims(S, c["kind"]) == (din, dout), "dimensions of A + B: %s" % (dims(S, c["kind"]),))
        meta_ok(S, din, dout)
        rho = rnd_rho(rng, din)
        close(apply(c["kind"], S, rho, 1), apply_kraus(a, apply_kraus(b, rho)), "action of A + B")
        close(ops_of(c["kind"], A), a, "A changed")
        close(ops_of(c["kind2"], B), b, "B changed")


@group(GROUPS, "parallel", ["DenseKraus.__mul__", "SparseKraus.__mul__", "AnalyticQChan.__mul__",
                            "DenseKraus.parallel_concatenate", "SparseKraus.parallel_concatenate"],
       "A * B acts as A on the first and B on the second system")
class B:
    def cases(rng, tier):
        return cases2(rng, False, 24)

    def check(c):
        rng, a, b = two(c)
        A, B = objs(c, a, b)
        P = A * B
        want = np.array([np.kron(x, y) for x in a for y in b])
        din, dout = want.shape[2], want.shape[1]
        close(ops_of(c["kind"], P), want, "Kraus operators of A * B")
        need(dims(P, c["kind"]) == (din, dout), "dimensions of A * B: %s" % (dims(P, c["kind"]),))
        meta_ok(P, din, dout)
        r1, r2 = rnd_c(rng, a.shape[2], a.shape[2]), rnd_c(rng, b.shape[2], b.shape[2])
        close(apply(c["kind"], P, np.kron(r1, r2), 1),
              np.kron(apply_kraus(a, r1), apply_kraus(b, r2)), "action on product states")


@group(GROUPS, "static", ["DenseKraus.serial_concatenate", "SparseKraus.serial_concatenate",
                          "DenseKraus.parallel_concatenate", "SparseKraus.parallel_concatenate"],
       "the static forms accept lists and arrays alike, and mismatched dimensions raise TypeError")
class C:
    def cases(rng, tier):
        for c in cases2(rng, bool(rng.integers(2)), 24):
            c["form"] = [int(x) for x in rng.integers(0, 3, 2)]
            c["cls"] = int(rng.integers(2))
            yield c

    def check(c):
        rng, a, b = two(c)
        cls = [DenseKraus, SparseKraus][c["cls"]]

        def form(x, f):
            if f == 2 and c["cls"]:
                return COO(x)
            return list(x) if f == 0 else np.array(x)
        fa, fb = form(a, c["form"][0]), form(b, c["form"][1])
        close(dense(cls.parallel_concatenate(fa, fb)),
              np.array([np.kron(x, y) for x in a for y in b]), "parallel_concatenate")
        if a.shape[2] == b.shape[1]:
            close(dense(cls.serial_concatenate(fa, fb)), np.array([x @ y for x in a for y in b]),
                  "serial_concatenate")
        else:
            raises(TypeError, lambda: cls.serial_concatenate(fa, fb), "mismatched serial")
            if c["kind"] == c["kind2"]:
                A, B = objs(c, a, b)
                raises(TypeError, lambda: A + B, "mismatched +")
