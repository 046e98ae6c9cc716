"""Optimal decoder / encoder as a semidefinite program."""
import contextlib
import io
from rac.common import *
from rac import common
from rac.p24 import pauli_chan
import PyQCodes.avgfid.avg_fidelity as af
from PyQCodes.codes import StabilizerCode

GROUPS = []


class Unmodelled(Exception):
    """The code uses picos in a way that the stand-in does not record: nothing is learnt about the program."""


class Recorder:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unmodelled(name)


class Var(Recorder):
    def __init__(self, name, size, kind):
        self.name, self.size, self.kind = name, size, kind

    def __rshift__(self, o):
        return ("psd", self, o)

    def __rlshift__(self, o):
        return ("psd", self, o)

    def __or__(self, m):
        return ("inner", self, m)

    def __ror__(self, m):
        return ("inner", self, m)


class PT(Recorder):
    def __init__(self, args):
        self.args = args

    def __eq__(self, o):
        return ("pt", self.args, o)


class Problem(Recorder):
    last = None

    def __init__(self, *a, **k):
        self.cons, self.opts, self.obj, self.vars = [], {}, None, []
        Problem.last = self

    def add_variable(self, name, size, vtype="continuous", **k):
        self.vars.append(Var(name, size, vtype))
        return self.vars[-1]

    def add_constraint(self, c, *a, **k):
        self.cons.append(c)

    def add_list_of_constraints(self, cs, *a, **k):
        for c in cs:
            self.add_constraint(c)

    def set_objective(self, d, e):
        self.obj = (d, e)

    def set_option(self, k, v):
        self.opts[k] = v

    def solve(self, **kw):
        self.kw = kw
        return {"status": "st", "time": 1.5, "primals": None}

    def obj_value(self):
        return 0.625


class Missing(type):
    def __getattr__(cls, name):
        raise Unmodelled(name)


class FakePic(metaclass=Missing):
    Problem = Problem

    @staticmethod
    def partial_trace(x, k=1, dim=None, *a, **kw):
        return PT((x, k, dim))


def capture(f):
    old = af.pic
    try:
        af.pic = FakePic
        with contextlib.redirect_stdout(io.StringIO()):
            res = f()
    except Unmodelled:
        return None, None
    finally:
        af.pic = old
    return res, Problem.last


def spmat(m):
    import cvxopt
    return np.array(cvxopt.matrix(m))


def check_problem(P, res, ks, din, dout, dlog, msg):
    """P: maximise sum |tr(R_i K_j)|^2 / dlog^2 over Choi matrices (in x out) of channels."""
    if P is None:
        return
    need(len(P.vars) == 1 and tuple(P.vars[0].size) == (din * dout,) * 2 and
         P.vars[0].kind == "hermitian", msg + ": variable")
    x = P.vars[0]
    psd = [c for c in P.cons if c[0] == "psd"]
    pts = [c for c in P.cons if c[0] == "pt"]
    need(len(psd) == 1 and psd[0][1] is x and psd[0][2] == 0, msg + ": positivity")
    need(len(pts) == 1 and len(P.cons) == 2, msg + ": constraints")
    px, k, dims = pts[0][1]
    need(px is x and k == 1 and [tuple(d) for d in dims] == [(din, din), (dout, dout)] and
         pts[0][2] in ("I", 1), msg + ": trace preservation over %s" % (dims,))
    need(P.obj[0] == "max" and P.obj[1][0] == "inner" and P.obj[1][1] is x, msg + ": objective")
    mat = spmat(P.obj[1][2])
    want = sum(np.outer(np.ravel(k.conj().T, "F"), np.ravel(k.conj().T, "F").conj())
               for k in ks) / dlog ** 2
    close(mat, want, msg + ": objective matrix")
    need(res["optimal_recov"] is x and res["optimal_val"] == 0.625 and res["status"] == "st" and
         res["time"] == 1.5, msg + ": reported result")


@group(GROUPS, "program", ["_optimize_average_entang_fid", "ChoiQutip.constraint_partial_trace",
                           "_convert_sparse_matrix_into_cvx_opt"],
       "the program maximizes the average entanglement fidelity with the maximally mixed logical "
       "state over completely positive trace preserving maps of the right dimensions")
class A:
    def cases(rng, tier):
        while True:
            yield {"n": int(rng.integers(1, 4)), "k": int(rng.integers(1, 3)),
                   "enc": int(rng.integers(2)), "m": int(rng.integers(1, 4)),
                   "sp": int(rng.integers(2)), "opt": int(rng.integers(2)),
                   "s": int(rng.integers(1 << 30))}

    def check(c):
        from scipy.sparse import csr_matrix, coo_matrix
        rng = np.random.default_rng(c["s"])
        n, k = max(c["n"], c["k"]), c["k"]
        if c["enc"]:       # fixed R o Phi from n to k qubits, free encoder k -> n
            ks = rnd_c(rng, c["m"], 2 ** k, 2 ** n)
            q, di, do = (k, n), 2 ** k, 2 ** n
        else:
            ks = rnd_c(rng, c["m"], 2 ** n, 2 ** k)
            q, di, do = (n, k), 2 ** n, 2 ** k
        arg = [csr_matrix(x) for x in ks] if c["sp"] else list(ks)
        opts = {"maxit": 7, "feastol": .5, "abstol": .25, "reltol": .125} if c["opt"] else None
        res, P = capture(lambda: af._optimize_average_entang_fid(
            arg, q, 2, 2, encoder=bool(c["enc"]), verbose=False, options=opts))
        check_problem(P, res, ks, di, do, 2 ** k, "program")
        if opts and P is not None:
            need(all(P.opts.get(a) == b for a, b in opts.items()), "options of the user")


@group(GROUPS, "decoder", ["optimize_decoder_stabilizers"],
       "the decoder program is that of the n-fold channel after the code's encoder")
class B:
    def cases(rng, tier):
        while True:
            yield {"n": int(rng.integers(2, 4)), "sp": int(rng.integers(2)),
                   "s": int(rng.integers(1 << 30))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        n = c["n"]
        rows = np.array(common.random_code(rng, n, n - 1))
        kr = pauli_chan(rng) if rng.integers(2) else list(rnd_kraus(rng, 2, 2, 2))
        res, P = capture(lambda: af.optimize_decoder_stabilizers(rows, (n, 1), kr,
                                                                 sparse=bool(c["sp"])))
        with contextlib.redirect_stdout(io.StringIO()):
            enc = np.asarray(StabilizerCode(rows, n, 1).encode_krauss_operators())
        ks = [k @ enc for k in power_ops(np.array(kr), n)]
        check_problem(P, res, np.array(ks), 2 ** n, 2, 2, "decoder")


@group(GROUPS, "solved", ["_optimize_average_entang_fid", "optimize_decoder_stabilizers"],
       "a solved program is feasible and not worse than syndrome recovery")
class C:
    def cases(rng, tier):
        while True:
            yield {"s": int(rng.integers(1 << 30)), "sp": int(rng.integers(2))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        n = 2
        rows = np.array(common.random_code(rng, n, n - 1))
        kr = pauli_chan(rng)
        with contextlib.redirect_stdout(io.StringIO()):
            res = af.optimize_decoder_stabilizers(rows, (n, 1), kr, sparse=bool(c["sp"]),
                                                  options={"maxit": 40, "abstol": 1e-5,
                                                           "reltol": 1e-5, "feastol": 1e-5})
            sc = StabilizerCode(rows, n, 1)
            enc = np.asarray(sc.encode_krauss_operators())
        ks = [k @ enc for k in power_ops(np.array(kr), n)]
        x = np.array(res["optimal_recov"].value)
        val = np.real(res["optimal_val"])
        close(np.einsum("aibi->ab", x.reshape(4, 2, 4, 2)), np.eye(4), "trace preserving", 1e-2)
        need(np.linalg.eigvalsh(x)[0] > -1e-3, "positive")
        want = sum(np.outer(np.ravel(k.conj().T, "F"), np.ravel(k.conj().T, "F").conj())
                   for k in ks) / 4
        close(val, np.real(np.trace(want @ x)), "value of the reported decoder", 1e-3)
        # decode by inverting the encoder on each error, weighted: R = enc^H (trace completing)
        for g in range(4):
            u = np.kron(*[[PI, PX, PZ, PXZ][i] for i in ((g, 0), (0, g))[rng.integers(2)]])
            fid = sum(abs(np.trace(enc.conj().T @ u @ k)) ** 2 for k in ks) / 4
            need(val > fid - 1e-2, "a simple decoder reaches %g, the optimum %g" % (fid, val))
