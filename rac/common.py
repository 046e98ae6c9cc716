"""Runtime contract checking (RAC) of the real PyQCodes code.

Every contract the deductive engine proves is also executable here, against independent oracles,
on the real interpreter (/opt/venv).  A case is a small JSON dictionary that regenerates the input
deterministically, so every failure replays from its JSON alone.
"""
import itertools
import json
import sys
import time
import traceback
import warnings

import numpy as np

warnings.simplefilter("ignore")

TOL = 1e-6


class Fail(Exception):
    pass


class Known(Exception):
    """The exact symptom of a recorded finding: Known(id, text)."""


def need(cond, msg):
    if not cond:
        raise Fail(msg)


def close(a, b, msg, tol=TOL):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, "%s: shape %s, expected %s" % (msg, a.shape, b.shape))
    if a.size:
        d = np.max(np.abs(a - b))
        scale = max(1.0, float(np.max(np.abs(b))))
        need(np.isfinite(d) and d < tol * scale, "%s: differs by %g" % (msg, d))


def raises(exc, f, msg):
    try:
        f()
    except exc:
        return
    except Exception as e:  # wrong kind
        raise Fail("%s: raised %s instead of %s" % (msg, type(e).__name__, exc))
    raise Fail("%s: did not raise" % msg)


# ---------------------------------------------------------------- GF(2) / Pauli oracles
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PXZ = np.array([[0, -1], [1, 0]], dtype=complex)
PI = np.eye(2, dtype=complex)
LETTER = {"I": PI, "X": PX, "Y": PXZ, "Z": PZ}
BITS = {"I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1)}


def str_to_bits(s):
    return [BITS[c][0] for c in s] + [BITS[c][1] for c in s]


def bits_to_str(b):
    n = len(b) // 2
    inv = {v: k for k, v in BITS.items()}
    return "".join(inv[(int(b[i]), int(b[n + i]))] for i in range(n))


def pauli_mat(bits):
    m = np.eye(1, dtype=complex)
    for c in bits_to_str(bits):
        m = np.kron(m, LETTER[c])
    return m


def symp(a, b):
    a, b = np.asarray(a, dtype=int), np.asarray(b, dtype=int)
    n = len(a) // 2
    return int((a[:n] @ b[n:] + a[n:] @ b[:n]) % 2)


def gf2_rank(m):
    m = [int("".join(str(int(x)) for x in r) or "0", 2) for r in np.asarray(m, dtype=int) % 2]
    rank = 0
    while m:
        p = m.pop()
        if p:
            rank += 1
            low = p & -p
            m = [x ^ p if x & low else x for x in m]
    return rank


def same_span(a, b):
    a, b = np.asarray(a, dtype=int), np.asarray(b, dtype=int)
    ra = gf2_rank(a)
    return ra == gf2_rank(b) == gf2_rank(np.vstack((a, b)))


def random_code(rng, n, m, style="any"):
    """m independent, pairwise commuting rows on n qubits (m <= n)."""
    while True:
        rows = []
        tries = 0
        while len(rows) < m and tries < 400:
            tries += 1
            if style == "css":
                v = np.zeros(2 * n, dtype=int)
                half = rng.integers(0, 2)
                v[half * n:(half + 1) * n] = rng.integers(0, 2, n)
            elif style == "xheavy":
                v = np.concatenate((rng.integers(0, 2, n), (rng.random(n) < 0.2).astype(int)))
            elif style == "zheavy":
                v = np.concatenate(((rng.random(n) < 0.2).astype(int), rng.integers(0, 2, n)))
            else:
                v = rng.integers(0, 2, 2 * n)
            if style == "evenY" and int(v[:n] @ v[n:]) % 2:
                continue
            if not v.any() or any(symp(v, r) for r in rows):
                continue
            if gf2_rank(np.array(rows + [v])) == len(rows) + 1:
                rows.append(v)
        if len(rows) == m:
            return np.array(rows)
        if style != "any":
            style = "any" if style != "evenY" else "css"


STYLES = ["any", "css", "xheavy", "zheavy", "evenY"]


def all_bits(n):
    return [list(t) for t in itertools.product([0, 1], repeat=n)]


def even_y(rows):
    rows = np.asarray(rows, dtype=int)
    n = rows.shape[1] // 2
    return all(int(r[:n] @ r[n:]) % 2 == 0 for r in rows)


# ---------------------------------------------------------------- channels
def rnd_c(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def rnd_kraus(rng, numb, din, dout):
    """numb random Kraus operators dout x din with sum K^H K = I (needs numb*dout >= din)."""
    a = rnd_c(rng, numb * dout, din)
    q, _ = np.linalg.qr(a)
    return q.reshape(numb, dout, din)


def rnd_rho(rng, d, rank=None):
    a = rnd_c(rng, d, rank or d)
    r = a @ a.conj().T
    return r / np.trace(r)


def apply_kraus(ks, rho):
    return sum(k @ rho @ k.conj().T for k in ks)


def kron_all(mats):
    out = np.eye(1)
    for m in mats:
        out = np.kron(out, m)
    return out


def power_ops(ks, n):
    return [kron_all(t) for t in itertools.product(list(ks), repeat=n)]


def dense(x):
    if hasattr(x, "todense"):
        x = x.todense()
    return np.asarray(x)


def entropy_bits(rho):
    w = np.linalg.eigvalsh(rho)
    w = w[w > 1e-12]
    return float(-np.sum(w * np.log2(w)))


# ---------------------------------------------------------------- runner
def run_module(mod, tier, seed, budget, shard=0, shards=1, only=None, max_fail=3, progress=None):
    """Round-robin over the groups of a module until all are exhausted or the budget is spent."""
    t0 = time.time()
    seen = set()
    gens = []
    for g in mod.GROUPS:
        if only and g["name"] not in only:
            continue
        gens.append([g, g["cases"](np.random.default_rng([seed, sum(map(ord, g["name"]))]), tier), 0])
    stats = {g[0]["name"]: dict(evaluations=0, exhausted=False, functions=g[0]["functions"],
                                what=g[0]["what"], samples=[]) for g in gens}
    failures, known = [], {}
    live = list(gens)
    while live and time.time() - t0 < budget and len(failures) < max_fail:
        for item in list(live):
            if time.time() - t0 > budget or len(failures) >= max_fail:
                break
            g, it, idx = item
            name = g["name"]
            try:
                case = next(it)
            except StopIteration:
                stats[name]["exhausted"] = True
                live.remove(item)
                continue
            item[2] += 1
            if idx % shards != shard:
                continue
            st = stats[name]
            st["evaluations"] += 1
            if len(st["samples"]) < 2:
                st["samples"].append(case)
            if progress:
                with open(progress, "w") as fh:
                    json.dump({"group": name, "case": case, "t": time.time()}, fh, default=plain)
            seen.add(hash(name + json.dumps(case, sort_keys=True, default=plain)))
            msg = run_case(g, case)
            if isinstance(msg, tuple):
                known.setdefault(msg[0], {"group": name, "case": case, "message": msg[1],
                                          "count": 0})["count"] += 1
            elif msg:
                failures.append({"group": name, "functions": g["functions"], "case": case,
                                 "message": msg})
                live.remove(item)
    return {"stats": stats, "failures": failures, "known": known, "wall_s": time.time() - t0,
            "distinct": sorted(seen)}


def plain(o):
    return o.tolist() if hasattr(o, "tolist") else str(o)


def run_case(g, case):
    np.random.seed(12345)
    try:
        g["check"](case)
    except Known as e:
        return e.args
    except Fail as e:
        return str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "%s: %s (at %s:%d)" % (type(e).__name__, str(e)[:300], tb.filename, tb.lineno)
    return None


def group(mod_groups, name, functions, what):
    """Decorator: @group(GROUPS, ...) class with cases(rng, tier) and check(case)."""
    def deco(cls):
        mod_groups.append(dict(name=name, functions=functions, what=what, cases=cls.cases,
                               check=cls.check))
        return cls
    return deco
