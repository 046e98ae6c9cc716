"""ProjectQ helpers (independent of the code under test)."""
from rac.common import *
from projectq import MainEngine
from projectq.cengines import BasicEngine
from projectq.backends import Simulator
from projectq.ops import X, H, Rx, Ry, Rz, Measure, All, QubitOperator, CNOT, FlushGate


class Buffer(BasicEngine):
    """Hands commands on when it is flushed, as engines may do."""
    def __init__(self):
        BasicEngine.__init__(self)
        self.kept = []

    def receive(self, command_list):
        for c in command_list:
            self.kept.append(c)
            if isinstance(c.gate, FlushGate):
                kept, self.kept = self.kept, []
                self.send(kept)


def engine(seed=1, buffered=False):
    e = MainEngine(backend=Simulator(rnd_seed=seed), engine_list=[Buffer()] if buffered else [])
    e.buffer = e.next_engine if buffered else None
    return e


def need_flushed(eng, what):
    need(eng.buffer is None or not eng.buffer.kept, "%s leaves the engine with commands to flush" % what)


def state(eng, reg):
    """State vector with register[0] as the most significant bit."""
    eng.flush()
    order, psi = eng.backend.cheat()
    psi = np.array(psi)
    n = len(order)
    t = psi.reshape([2] * n)          # axis a <-> bit n-1-a
    axes = [n - 1 - order[q.id] for q in reg]
    rest = [a for a in range(n) if a not in axes]
    return t.transpose(axes + rest).reshape(-1)


def prepare(eng, reg, psi):
    """Set the register (all of the qubits of eng) to psi, register[0] most significant."""
    eng.flush()
    n = len(reg)
    eng.backend.set_wavefunction(list(np.asarray(psi, dtype=complex)), list(reg)[::-1])


def done(eng, reg):
    eng.flush()
    All(Measure) | [q for q in reg]
    eng.flush()


def apply_paulis(eng, reg, string):
    from projectq.ops import X as GX, Z as GZ
    for q, c in enumerate(string):
        if c == "X":
            GX | reg[q]
        elif c == "Z":
            GZ | reg[q]
        elif c == "Y":
            GZ | reg[q]
            GX | reg[q]
    eng.flush()


def eig(mat, psi):
    """Eigenvalue when psi is an eigenvector, else None."""
    v = mat @ psi
    lam = np.vdot(psi, v) / np.vdot(psi, psi)
    return lam if np.max(np.abs(v - lam * psi)) < 1e-6 else None
