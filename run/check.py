#!/usr/bin/env python3
"""Decides one property: discharges its contracts on /repo's current tree.

usage: check.py <property> [--tier quick|thorough] [--only contract]

Each contract of the property (contracts/src/<module>.rs) is
  1. discharged by Kani/CBMC where it has a harness (symbolic inputs), and
  2. evaluated natively on an enumerated domain (a bounded stand-in, and the
     means to replay a counterexample of the verifier on the real code).

A failed obligation is a violation. A counterexample of the verifier is replayed
natively; without a failing replay the line ends with no-failing-input-found.
Timeouts, unwinding limits and unsupported constructs leave an obligation
undischarged: they are reported in the evidence and never raise an alarm.
"""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(ROOT, "contracts")
BUILD = os.path.join(ROOT, ".build")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")

KANI_FLAGS = ["-Z", "stubbing", "-Z", "function-contracts", "-Z", "unstable-options",
              "--no-assertion-reach-checks"]


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


RUNNING = []


def stop_running():
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def sh(cmd, wall, **kw):
    """Runs cmd in a process group which is ended as a whole at the limit."""
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    RUNNING.append(p)
    try:
        out, _ = p.communicate(timeout=wall)
        return p.returncode, out
    finally:
        # solvers outlive a verifier which hit its own time limit
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        RUNNING.remove(p)


def build_native():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "native")
    r = subprocess.run(["cargo", "build", "--offline", "--bin", "native"], cwd=CRATE, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        return None
    return os.path.join(BUILD, "native", "debug", "native")


def harnesses_of(c):
    base = "%s::k::%s" % (c["module"], c["name"])
    if c["kani"] == "none":
        return []
    if c["split"]:
        return ["%s__%d" % (base, i) for i in range(c["split"])]
    return [base]


def run_kani(prop, hs, wall, per):
    """Returns (json or None, log)."""
    out = os.path.join(BUILD, "kani-%s.json" % prop)
    if os.path.exists(out):
        os.remove(out)
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "kani")
    cmd = ["cargo", "kani", "--lib"] + KANI_FLAGS + \
        ["-j", "8", "--output-format", "terse", "--harness-timeout", "%ds" % per,
         "--export-json", out, "--exact"]
    for h in hs:
        cmd += ["--harness", h]
    try:
        with open(os.path.join(BUILD, "kani-%s.log" % prop), "w") as f:
            sh(cmd, wall, cwd=CRATE, env=e, stdout=f, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return None, "wall limit of %ds" % wall
    if not os.path.exists(out):
        with open(os.path.join(BUILD, "kani-%s.log" % prop), errors="replace") as f:
            return None, f.read()[-3000:]
    with open(out) as f:
        return json.load(f), ""


def classify(res):
    """Failed obligations of one harness result: (real, undetermined)."""
    real, und = [], []
    for ch in res.get("checks", []):
        st, cat, desc = ch["status"].lower(), ch["category"].lower(), ch["description"]
        if cat == "cover":
            continue
        if st in ("success", "unreachable"):
            continue
        if st == "failure" and "unwind" not in cat and "unwinding" not in desc \
                and "unsupported" not in cat and "not currently supported" not in desc \
                and "recursion" not in cat:
            real.append(ch)
        else:
            und.append(ch)
    return real, und


def playback(prop, h, wall):
    """Concrete inputs for the failing harness, as lists of draws."""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "kani")
    cmd = ["cargo", "kani", "--lib"] + KANI_FLAGS + \
        ["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", h]
    try:
        _, text = sh(cmd, wall, cwd=CRATE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return [], "playback: wall limit"
    cases = []
    for m in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
        vals = []
        for v in re.finditer(r"vec!\[([^\]]*)\]", m.group(1)):
            bs = [int(x) for x in v.group(1).replace(" ", "").split(",") if x]
            vals.append(sum(b << (8 * i) for i, b in enumerate(bs)))
        cases.append(vals)
    return cases, text[-6000:]


def native_one(p, name, wall):
    try:
        out, err = p.communicate(timeout=wall)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"name": name, "timeout": True, "fail": None, "execs": 0, "distinct": 0, "missing": [],
                "rejected": 0, "exhausted": False, "wall_s": wall, "reached": [], "trace": []}
    try:
        return json.loads(out.strip().splitlines()[-1])
    except Exception:
        # the process was ended by the code under contract (stack overflow, abort)
        return {"name": name, "fail": "process ended with status %d: %s"
                % (p.returncode, err[-300:]), "trace": None, "execs": 0, "distinct": 0, "missing": [],
                "rejected": 0, "exhausted": False, "wall_s": 0, "reached": []}


def native_run(binary, prop, c, secs, seed, wall, workers):
    """Enumeration and sampling in the first process, sampling with other seeds in the rest."""
    ps = [subprocess.Popen([binary, "run", prop, c["name"], str(secs), str(seed + 7919 * i), str(i)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
          for i in range(workers)]
    end = time.time() + wall
    res = native_one(ps[0], c["name"], wall)
    for p in ps[1:]:
        if res["exhausted"] or res["fail"]:
            p.kill()
            p.communicate()
            continue
        r = native_one(p, c["name"], max(1, end - time.time()))
        for k in ("execs", "distinct", "rejected"):
            res[k] += r[k]
        res["reached"] = sorted(set(res["reached"]) | set(r["reached"]))
        res["missing"] = [m for m in res["missing"] if m not in r["reached"]]
        if r["fail"]:
            res["fail"], res["trace"] = r["fail"], r["trace"]
    return res


def replay(binary, prop, name, vals):
    try:
        r = subprocess.run([binary, "replay", prop, name, ",".join(map(str, vals))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=60)
    except subprocess.TimeoutExpired:
        return False, "replay: timeout"
    return r.returncode not in (0, 2), r.stdout.strip()


def known_lines(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        ls = [l.strip() for l in f]
    return [l for l in ls if l.startswith("known: property=%s " % prop)]


def scan_assumptions(module):
    """Mechanical scan of the harness sources for everything assumed."""
    found = []
    for fn in (module + ".rs",):
        with open(os.path.join(CRATE, "src", fn)) as f:
            src = f.read()
        for m in re.finditer(r"kani::stub\(([^()]*(?:\([^()]*\)[^()]*)*)\)", src):
            found.append("stub (assumed contract): " + " ".join(m.group(1).split()))
        for m in re.finditer(r"\bs\.assume\(([^;]*)\);", src):
            found.append("precondition: " + " ".join(m.group(1).split()))
        for m in re.finditer(r"^//# assumes: (.*)$", src, re.M):
            found.append(m.group(1).strip())
    return sorted(set(found))


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--only" in args:
        only = args[args.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)

    binary = build_native()
    if not binary:
        die("the contracts do not build against /repo: no answer")
    r = subprocess.run([binary, "list", prop], stdout=subprocess.PIPE, text=True)
    table = [json.loads(l) for l in r.stdout.splitlines()]
    if not table:
        die("no contract registered for " + prop)
    if only:
        table = [c for c in table if c["name"] == only]
    contracts = [c for c in table if not c["finding"]]
    findings = [c for c in table if c["finding"]]
    module = table[0]["module"]

    hs = [h for c in contracts for h in harnesses_of(c)]
    budget = 3000 if thorough else 540
    per = 1500 if thorough else 240
    nat_secs = 120 if thorough else 30
    pool = cf.ThreadPoolExecutor(4)
    kani_f = pool.submit(run_kani, prop, hs, budget, per) if hs else None
    workers = max(1, min(6, 8 // len(contracts)))
    nat_pool = cf.ThreadPoolExecutor(4)
    nat = {c["name"]: nat_pool.submit(native_run, binary, prop, c, nat_secs, seed,
                                      nat_secs * 4 + 60, workers if c in contracts else 1)
           for c in contracts + findings}
    nat = {k: v.result() for k, v in nat.items()}
    if any(nat[c["name"]]["fail"] for c in contracts):
        # a failing input is at hand: the verifier's answer cannot change the outcome
        stop_running()
    kj, klog = kani_f.result() if kani_f else (None, "")

    results = {}
    stats = {}
    if kj:
        for x in kj["verification_results"]["results"]:
            results[x["harness_id"]] = x
        for x in kj.get("cbmc", []) or []:
            stats[x["harness_id"]] = x

    violations = []
    obligations = discharged = bounded_obl = 0
    solver_s = 0.0
    report = []
    undischarged = []
    backends = set()
    for c in contracts:
        entry = {"contract": c["name"], "functions": c["fns"]}
        state = "bounded stand-in"
        kfail = []
        if c["kani"] != "none":
            ok = True
            n = 0
            cover = {}
            for h in harnesses_of(c):
                x = results.get(h)
                if x is None:
                    ok = False
                    undischarged.append("%s: no verifier result (%s)"
                                        % (h, " ".join(klog.split())[-300:]))
                    continue
                st = stats.get(h, {})
                solver_s += (st.get("cbmc_stats", {}) or {}).get("runtime_decision_procedure_s") or 0
                backends.add((st.get("configuration", {}) or {}).get("solver") or "cadical")
                real, und = classify(x)
                good = [k for k in x.get("checks", []) if k["category"] != "cover"]
                cov = [k for k in x.get("checks", []) if k["category"] == "cover"]
                n += len(good)
                if real:
                    kfail.append((h, real))
                    ok = False
                elif und or x["status"] != "Success" or not good:
                    ok = False
                    undischarged.append("%s: %s" % (
                        h, und[0]["description"] if und else "time or memory limit"))
                # a family of harnesses reaches a point when one of them does
                for k in cov:
                    hit = k["status"].lower() in ("satisfied", "covered")
                    cover[k["description"]] = cover.get(k["description"], False) or hit
            if ok:
                for d in sorted(d for d in cover if not cover[d]):
                    ok = False
                    undischarged.append("%s: vacuous, not reached: %s" % (c["name"], d))
            if c["kani"] == "full":
                obligations += n or len(harnesses_of(c))
                if ok:
                    discharged += n
                    state = "proved"
                else:
                    state = "undischarged"
            else:
                bounded_obl += n
                state = "bounded proof (%s)" % c["bound"] if ok else "undischarged"
            entry["verifier_obligations"] = n
        r = nat[c["name"]]
        entry["native"] = {"domain": c["native"], "executions": r["execs"], "distinct": r["distinct"],
                           "exhausted": r["exhausted"], "rejected": r["rejected"],
                           "reached": r["reached"]}
        found = None
        note = ""
        if r["fail"]:
            found = {"contract": c["name"], "obligation": r["fail"], "draws": r["trace"],
                     "by": "native evaluation of the contract"}
        for h, real in kfail:
            if found:
                break
            fixed = [int(v) for v in h.split("__")[1].split("_")] if "__" in h else []
            cases, note = playback(prop, h, 200)
            for vals in cases:
                bad, msg = replay(binary, prop, c["name"], fixed + vals)
                if bad:
                    found = {"contract": c["name"], "obligation": real[0]["description"],
                             "draws": fixed + vals, "by": "verifier counterexample, replayed: " + msg}
                    break
        if found:
            state = "VIOLATED"
            violations.append((c, found, True))
        elif kfail:
            state = "VIOLATED"
            violations.append((c, {"contract": c["name"], "harness": kfail[0][0],
                                   "obligation": kfail[0][1][0]["description"],
                                   "location": kfail[0][1][0]["location"],
                                   "failed": [k["description"] for k in kfail[0][1]][:20],
                                   "verifier_output": note}, False))
        else:
            if r.get("timeout"):
                undischarged.append("%s: native evaluation exceeded its time limit" % c["name"])
                if c["kani"] == "none":
                    state = "undischarged"
            if r["missing"]:
                undischarged.append("%s: native run did not reach %s" % (c["name"], r["missing"]))
            if r["execs"] == 0 and state == "bounded stand-in":
                state = "undischarged"
        entry["state"] = state
        report.append(entry)

    # recorded findings: the contract is expected to fail on the listed input
    known = known_lines(prop)
    for c in findings:
        r = nat[c["name"]]
        line = [l for l in known if (" %s:" % c["name"]) in l]
        if r["fail"]:
            if line:
                print("KNOWN-FINDING: property=%s %s" % (prop, line[0].split(" ", 2)[2]))
            else:
                violations.append((c, {"contract": c["name"], "obligation": r["fail"],
                                       "draws": r["trace"], "by": "native evaluation"}, True))

    proved = [e for e in report if e["state"] == "proved"]
    level = json.load(open(os.path.join(ROOT, "levels.json"))).get(prop, "proof")
    evals = sum(e["native"]["executions"] for e in report)
    coverage = {
        "explanation": "contracts on the real functions of /repo, discharged by Kani/CBMC over "
                       "symbolic inputs where state is proved; bounded proofs and bounded stand-ins "
                       "are labelled and not counted as proved",
        "obligations": obligations,
        "discharged": discharged,
        "bounded_obligations": bounded_obl,
        "contracts": len(contracts),
        "contracts_proved": len(proved),
        "contracts_bounded": len([e for e in report if e["state"].startswith("bounded")]),
        "functions_under_contract": sorted({f for e in report for f in e["functions"]}),
        "undischarged": undischarged,
        "back_ends": sorted("kani/cbmc+" + b for b in backends),
        "solver_s": round(solver_s, 3),
        "checker_cmd": "cargo kani --lib " + " ".join(KANI_FLAGS) + " --exact --harness <harness> "
                       "(in /verif/contracts)",
        "trusted_base": ["rustc and the Kani compiler front end", "CBMC 6.11 and its SAT/SMT solvers",
                         "dependencies outside /repo as compiled"],
        "evaluations": evals,
        "distinct_nontrivial": sum(e["native"]["distinct"] for e in report),
        "rule": "one evaluation is one execution of a contract on one tuple of drawn inputs which "
                "met its preconditions; distinct: the enumeration never repeats a tuple, sampled tuples are counted once per process (the first 500,000 are compared)",
        "samples": [{"contract": e["contract"], "state": e["state"],
                     "executions": e["native"]["executions"]} for e in report][:8],
        "report": report,
    }
    evidence = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": level, "coverage": coverage,
        "assumptions": scan_assumptions(module),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print("property=%s contracts=%d proved=%d obligations=%d/%d bounded_obligations=%d "
          "native_executions=%d undischarged=%d solver_s=%.1f wall_s=%.1f"
          % (prop, len(contracts), len(proved), discharged, obligations, bounded_obl, evals,
             len(undischarged), solver_s, time.time() - t0))
    for u in undischarged:
        print("undischarged: " + u)
    if violations:
        # a violation shown by a failing input takes precedence
        violations.sort(key=lambda v: not v[2])
        for i, (c, found, shown) in enumerate(violations):
            path = os.path.join(EVID, "%s.replay%s.json" % (prop, i or ""))
            found["property"] = prop
            if shown and found.get("draws") is not None:
                found["replay_cmd"] = "%s replay %s %s %s" % (
                    binary, prop, c["name"], ",".join(map(str, found["draws"])))
            with open(path, "w") as f:
                json.dump(found, f, indent=1)
            print("failed obligation: %s/%s: %s" % (prop, c["name"], found["obligation"]))
            if not shown and any(v[2] for v in violations):
                continue
            print("VIOLATION property=%s replay=%s%s"
                  % (prop, path, "" if shown else " no-failing-input-found"))
        sys.exit(1)
    # nothing was decided at all: that is not a pass
    if all(e["state"] == "undischarged" for e in report):
        die("no contract could be decided")
    sys.exit(0)


main()
