"""Check of one property:  python3-vt check.py PNN [--tier quick|thorough]

1. pyded: contracts of the functions behind the property are verified deductively on /repo's current
   source (one report of named obligations).
2. RAC: the same contracts, executable, run on the real code over generated inputs.  It replays what
   the verifier refutes, and stands in (bounded, never counted as proved) where an obligation is undecided.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the machinery itself failed.
"""
import argparse
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
SHARDS = 8
QUICK_BUDGET = {"default": 25, "P07": 35, "P22": 35, "P24": 35, "P26": 45, "P04": 30}
HANG_S = 240


def rac_env(extra=None):
    env = dict(os.environ)
    env.update(PYTHONPATH=HERE + ":/repo", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env.update(extra or {})
    return env


def rac_case(module, group, case, timeout=HANG_S):
    p = subprocess.Popen([PY, "-m", "rac.main", module, "--case", group, json.dumps(case)], cwd=tempfile.gettempdir(),
                         env=rac_env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "no result after %d s" % timeout
    if not out.strip():
        return "interpreter ended with code %s" % p.returncode
    msg = json.loads(out)["message"]
    return msg


def rac_run(module, tier, seed, budget, groups=None):
    """All shards of one RAC module, merged."""
    tmp = tempfile.mkdtemp(prefix="rac")
    procs = []
    for s in range(SHARDS):
        prog = os.path.join(tmp, "p%d" % s)
        p = subprocess.Popen([PY, "-m", "rac.main", module, tier, str(seed), str(budget), str(s), str(SHARDS),
                              ",".join(groups or [])], cwd=tmp, env=rac_env({"RAC_PROGRESS": prog}),
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
        procs.append((s, p, prog))
    res = dict(stats={}, failures=[], known={}, distinct=set(), errors=[], wall_s=0)
    t_end = time.time() + budget + 120
    for s, p, prog in procs:
        hung = False
        try:
            out, _ = p.communicate(timeout=max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
        if not out.strip():
            try:
                cur = json.load(open(prog))
            except Exception:
                res["errors"].append("shard %d of %s ended with code %s and no result" % (s, module, p.returncode))
                continue
            msg = rac_case(module, cur["group"], cur["case"]) if not res["failures"] else None
            if isinstance(msg, str):
                res["failures"].append({"group": cur["group"], "functions": [], "case": cur["case"], "message": msg})
            elif not res["failures"]:
                res["errors"].append("shard %d of %s %s on %s" % (s, module, "hung" if hung else "died", cur))
            continue
        r = json.loads(out)
        for g, st in r["stats"].items():
            d = res["stats"].setdefault(g, dict(evaluations=0, exhausted=True, functions=st["functions"],
                                                what=st["what"], samples=[]))
            d["evaluations"] += st["evaluations"]
            d["exhausted"] &= st["exhausted"]
            d["samples"] = (d["samples"] + st["samples"])[:2]
        res["failures"] += r["failures"]
        for k, v in r["known"].items():
            if k in res["known"]:
                res["known"][k]["count"] += v["count"]
            else:
                res["known"][k] = v
        res["distinct"] |= set(r["distinct"])
        res["wall_s"] = max(res["wall_s"], r["wall_s"])
    for d, _, fs in os.walk(tmp, topdown=False):
        for f in fs:
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return res


def known_findings(pid):
    ids = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        if line.startswith("KNOWN-FINDING: property=%s " % pid):
            rest = line.split(" ", 2)[2]
            key, text = rest.split(" ", 1)
            ids[key.rstrip(":")] = text
    return ids


def run_pyded(pid, tier, timeout):
    """The deductive part in its own process: {"functions":..,"obligations":[..],"assumptions":[..]}."""
    if not os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")):
        return None
    out = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
    out.close()
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    p = subprocess.Popen([sys.executable, "-m", "pyded.run", pid, tier, out.name], cwd=HERE, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    return p, out.name, time.time() + timeout


def finish_pyded(h):
    p, name, t_end = h
    try:
        _, err = p.communicate(timeout=max(1, t_end - time.time()))
        err = err.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        err = "time limit"
    try:
        rep = json.load(open(name))
    except Exception:
        rep = None
    os.unlink(name)
    return rep, err


def replay_file(pid, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1, default=str)
    name = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(name, "w") as fh:
        fh.write(text + "\n")
    return name


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--budget", type=float)
    ap.add_argument("--no-rac", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    claimed = {c["property"]: c for c in manifest["checks"]}.get(pid, {})
    budget = a.budget or (QUICK_BUDGET.get(pid, QUICK_BUDGET["default"]) if tier == "quick" else 400)
    if a.no_rac:
        budget = 0.01
    ded = run_pyded(pid, tier, 420 if tier == "quick" else 1500)
    rac = rac_run(pid.lower(), tier, seed, budget)
    rep, err = finish_pyded(ded) if ded else (None, "")
    exit_code, lines = 0, []

    obligations = rep["obligations"] if rep else []
    discharged = [o for o in obligations if o["status"] == "discharged"]
    # a stated goal that the back ends do not accept any more ("unproved") is reported like a refuted one;
    # a function outside the verifier's reach ("other") is left to the bounded stand-in
    refuted = [o for o in obligations if o["status"] in ("refuted", "unproved")]
    undecided = [o for o in obligations if o["status"] not in ("discharged", "refuted", "unproved")]
    if ded and rep is None:
        undecided = [{"name": "(the verifier gave no report)", "status": "undecided", "why": err}]
    if rep is not None and not obligations:
        undecided = [{"name": "(no obligation was generated)", "status": "undecided", "why": "vacuous"}]
    if refuted and not rac["failures"] and not rac["errors"]:
        # targeted search for a failing input of the refuted obligations
        fns = {o["function"].split(".")[-1] for o in refuted}
        groups = [g for g, st in rac["stats"].items() if any(f.split(".")[-1] in fns for f in st["functions"])]
        more = rac_run(pid.lower(), "thorough", seed + 1000, 60, groups or None)
        rac["failures"] += more["failures"]
        rac["distinct"] |= more["distinct"]
        for g, st in more["stats"].items():
            rac["stats"][g]["evaluations"] += st["evaluations"]
    listed = known_findings(pid)
    failures = list(rac["failures"])
    for k, v in rac["known"].items():
        if k in listed:
            lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, k, listed[k]))
        else:
            failures.append({"group": v["group"], "functions": [], "case": v["case"], "message": v["message"]})
    if failures:
        f = failures[0]
        path = replay_file(pid, {"property": pid, "module": pid.lower(), "group": f["group"], "case": f["case"],
                                 "functions": f["functions"], "message": f["message"],
                                 "failed_obligations": refuted + undecided,
                                 "how": "python3-vt replay.py <this file>"})
        print("failing input for %s [%s]: %s" % (pid, f["group"], f["message"]))
        for o in refuted + undecided:
            print("  obligation not discharged: %s: %s" % (o["name"], o.get("why", "")[:300]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        exit_code = 1
    elif refuted:
        path = replay_file(pid, {"property": pid, "failed_obligations": refuted, "message": "not accepted by the verifier; "
                                 "no failing input was found on the real code"})
        for o in refuted:
            print("obligation not discharged: %s: %s" % (o["name"], o.get("why", "")[:300]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        exit_code = 1
    elif rac["errors"]:
        for e in rac["errors"]:
            print("error: " + e)
        exit_code = 2
    for o in undecided:
        print("undecided (bounded stand-in only): %s: %s" % (o["name"], str(o.get("why", ""))[:300]))

    # ------------------------------------------------------------ evidence
    level = claimed.get("level", "other")
    evaluations = sum(s["evaluations"] for s in rac["stats"].values())
    if level == "proof" and (undecided or refuted or not discharged):
        level = "other"
    cov = dict(
        evaluations=evaluations, distinct_nontrivial=len(rac["distinct"]),
        rule="each case is a generated JSON input of one contract, run on the real code against an independent "
             "oracle; distinct = different (contract, input) pairs; every generated case satisfies the precondition",
        samples=[{"contract": g, "case": c} for g, s in rac["stats"].items() for c in s["samples"][:1]],
        bounded_contracts={g: {k: s[k] for k in ("functions", "what", "evaluations", "exhausted")}
                           for g, s in rac["stats"].items()},
        exhausted_groups=[g for g, s in rac["stats"].items() if s["exhausted"]])
    if rep is not None:
        cov.update(obligations=len(obligations), discharged=len(discharged),
                   checker_cmd="python3-vt -m pyded.run %s %s OUT.json" % (pid, tier),
                   trusted_base=rep["trusted"],
                   functions_under_contract=rep["functions"],
                   back_ends=rep["back_ends"], solver_s=rep["solver_s"],
                   obligation_list=[{k: o[k] for k in ("name", "function", "status", "by", "ms") if k in o}
                                    for o in obligations],
                   undecided=[{"name": o["name"], "why": o.get("why", "")} for o in undecided],
                   covers=rep.get("covers", []))
    cov["explanation"] = ("%d of %d deductive obligations discharged on /repo's current source; the executable "
                          "contracts (bounded, not counted as proved) were evaluated %d times on the real code."
                          % (len(discharged), len(obligations), evaluations))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=(rep["assumptions"] if rep else []) + ["executable contracts compare floats with tolerance 1e-6"],
              wall_s=round(time.time() - t0, 2), violations=1 if exit_code == 1 else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d/%d obligations discharged, %d executable-contract evaluations, %.0f s"
          % (pid, len(discharged), len(obligations), evaluations, time.time() - t0))
    for l in lines:
        print(l)
    return exit_code


if __name__ == "__main__":
    sys.exit(main())
