import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

from . import engine
from .engine import HERE, REPO

MODULES = {
    "C01": "wavcrash", "C02": "wavhist", "C03": "dsrecover", "C04": "dshist", "C05": "dsconc",
    "C06": "protocol", "C07": "resume", "C08": "checkpoint", "C09": "callerdata", "C10": "isolation",
    "C11": "repro", "C12": "interrupt", "C13": "monotone", "C14": "output", "C15": "lossref",
    "C16": "params", "C17": "permutation", "C18": "pairs", "C22": "progress", "C23": "step", "C24": "wavexchange",
}


def get_check(prop):
    import warnings

    warnings.simplefilter("ignore")
    import ssspy

    root = os.path.realpath(os.path.dirname(ssspy.__file__))
    if not root.startswith(os.path.realpath(REPO) + os.sep):
        raise engine.HarnessError("ssspy imported from %s, not %s" % (root, REPO))
    import pkgutil

    for m in pkgutil.walk_packages(ssspy.__path__, "ssspy."):  # no module is first imported in the middle of a simulated run
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    return importlib.import_module("sim.checks." + MODULES[prop]).CHECK


def minimise(check, case, vclass, budget=60.0):
    """Greedy shrinking in a forked child, which streams every improvement."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = os.fdopen(w, "w", buffering=1)
        sys.unraisablehook = lambda *a: None
        try:
            check.setup()
            best = case
            end = time.monotonic() + budget
            progress = True
            while progress and time.monotonic() < end:
                progress = False
                for cand in check.shrinks(best):
                    if time.monotonic() > end:
                        break
                    cand = json.loads(json.dumps(cand))
                    if cand == best:
                        continue
                    try:
                        res = engine.run_guarded(check, cand)
                    except Exception:
                        continue
                    if getattr(res, "hung", False) and vclass != "no-progress":
                        out.flush()
                        os._exit(0)
                    if any(v.cls == vclass for v in res.violations):
                        best = cand
                        out.write(json.dumps(best) + "\n")
                        progress = True
                        break
            out.flush()
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    import select

    buf = b""
    end = time.monotonic() + budget + 5
    while True:
        left = end - time.monotonic()
        if left <= 0:
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            break
        data = os.read(r, 1 << 20)
        if not data:
            break
        buf += data
    try:
        os.kill(pid, 9)
    except OSError:
        pass
    os.waitpid(pid, 0)
    os.close(r)
    lines = [l for l in buf.split(b"\n") if l.strip()]
    full = buf.endswith(b"\n")
    if lines and not full:
        lines = lines[:-1]
    return json.loads(lines[-1]) if lines else case


def write_replay(check, seed, tier, index, case, v, prelude=()):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    name = "%s-%s.json" % (check.prop, "%016x" % engine.derive(json.dumps(case, sort_keys=True), v["class"]))
    path = os.path.join(HERE, "replays", name)
    rep = {"property": check.prop, "seed": seed, "tier": tier, "index": index, "violation": v, "case": case,
           "how": "bash /verif/run.sh replay " + path}
    if prelude:  # runs of the same process that have to come first
        rep["prelude"] = list(prelude)
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path


def fresh_replay(path, timeout=300):
    """Replay in a fresh interpreter. -> (status, parsed json or None)"""
    env = dict(os.environ)
    try:
        p = subprocess.run([sys.executable, "-m", "sim.main", "replay", path, "--json"], cwd=HERE, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, None
    try:
        return p.returncode, json.loads(p.stdout.decode().strip().split("\n")[-1])
    except Exception:
        return p.returncode, None


def cmd_replay(path, as_json=False):
    with open(path) as f:
        rep = json.load(f)
    check = get_check(rep["property"])
    check.setup()
    sys.unraisablehook = lambda *a: None
    for case in rep.get("prelude", ()):
        try:
            engine.run_guarded(check, case)
        except Exception:
            pass
    res = engine.run_guarded(check, rep["case"])
    hit = [v for v in res.violations if v.cls == rep["violation"]["class"]]
    if as_json:
        print(json.dumps({"violations": [v.to_json() for v in res.violations], "hit": bool(hit),
                          "digest": res.digest(), "events": res.tail}))
        sys.stdout.flush()
        os._exit(1 if hit else 0)
    for e in res.tail:
        print("  ", e)
    for v in res.violations:
        print(v.cls, "::", v.msg)
    if hit:
        print("VIOLATION property=%s replay=%s" % (rep["property"], os.path.abspath(path)))
    else:
        print("not reproduced")
    sys.stdout.flush()
    os._exit(1 if hit else 0)


def find_prelude(check, seed, tier, m, workers, budget=150.0):
    """A violation that a fresh process does not show: which earlier runs of the same process does it need? -> list of cases or None"""
    end = time.monotonic() + budget
    before = list(range(m["index"] % workers, m["index"], workers))

    def shows(indices):
        path = write_replay(check, seed, tier, m["index"], m["case"], m["v"], [engine.make_case(check, seed, i, tier) for i in indices])
        code, rep = fresh_replay(path, timeout=max(5, end - time.monotonic()))
        return code == 1 and bool(rep) and rep["hit"]
    need = None
    for k in (1, 10, 100, len(before)):
        if time.monotonic() > end:
            break
        if shows(before[-k:]):
            need = before[-k:]
            break
    if not need:
        return None
    size = len(need)
    while size > 1 and time.monotonic() < end:
        size = (size + 1) // 2
        i = 0
        while i < len(need) and time.monotonic() < end:
            rest = need[:i] + need[i + size:]
            if rest and shows(rest):
                need = rest
            else:
                i += size
        if size == 1:
            break
    return [engine.make_case(check, seed, i, tier) for i in need]


def confirm(check, seed, tier, m, prelude=None):
    """Minimise a violation and reproduce it in a fresh process. -> (confirmed, violation, replay path)"""
    v = m["v"]
    if "path" in m:
        return True, v, m["path"]
    best = m["case"]
    if v["class"] != "no-progress" and prelude is None:
        best = minimise(check, m["case"], v["class"], 45.0)
    path = None
    cands = [(best, ()), (m["case"], ())] if best != m["case"] else [(best, ())]
    if prelude is not None:
        cands = [(m["case"], prelude)]
    for cand, first in cands:
        path = write_replay(check, seed, tier, m["index"], cand, v, first)
        code, rep = fresh_replay(path)
        if code == 1 and rep and rep["hit"]:
            v = [x for x in rep["violations"] if x["class"] == v["class"]][0]
            code2, rep2 = fresh_replay(path)
            same = rep2 is not None and rep2["digest"] == rep["digest"]
            path = write_replay(check, seed, tier, m["index"], cand, v, first)
            with open(path) as f:
                full = json.load(f)
            full["events"] = rep["events"]
            full["digest"] = rep["digest"]
            full["replays_identically"] = same
            with open(path, "w") as f:
                json.dump(full, f, indent=1)
            return True, v, path
    return False, v, path


def cmd_check(prop, tier, runs=None):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    t0 = time.monotonic()
    check = get_check(prop)
    check.setup()
    print("%s tier=%s VERIF_SEED=%d repo=%s" % (prop, tier, seed, REPO), flush=True)
    known = engine.load_known(prop)
    tot = engine.search(check, seed, tier, runs=runs)
    exit_code = 0
    violations = 0
    vinfo = None
    if tot["deaths"] and not tot["violations"]:
        d = min(tot["deaths"], key=lambda d: d["index"])
        # a run that takes the whole process down: confirm it in a fresh process
        case = engine.make_case(check, seed, d["index"], tier)
        v = {"class": "process-death", "key": "process-death",
             "message": "the process running this case was killed (status %d)" % d["status"]}
        path = write_replay(check, seed, tier, d["index"], case, v)
        code, _ = fresh_replay(path)
        if code is not None and code < 0 and code != -9:
            tot["violations"].append({"index": d["index"], "case": case, "v": v, "path": path})
        else:
            tot["errors"].append("a worker died (status %d) and its case does not reproduce that" % d["status"])
    lost = []
    if tot["violations"]:
        for m in sorted(tot["violations"], key=lambda m: m["index"])[:3]:
            ok, v, path = confirm(check, seed, tier, m)
            if ok:
                violations = 1
                vinfo = v
                exit_code = 1
                break
            lost.append(m)
            tot["errors"].append("violation %s (run %d) did not replay in a fresh process: %s"
                                 % (v["class"], m["index"], v["message"]))
    for m in lost[:2] if not violations else ():
        # what the process ran before may matter: state shared between objects
        prelude = find_prelude(check, seed, tier, m, tot["workers"]) if m["v"]["class"] != "no-progress" else None
        ok, v, path = confirm(check, seed, tier, m, prelude) if prelude else (False, None, None)
        if ok:
            violations, vinfo, exit_code = 1, v, 1
            break
    # determinism audit: the first runs again, in a fresh interpreter under another hash seed
    audit = determinism_audit(check, seed, tier, tot) if not tot["errors"] and not violations else None
    wall = time.monotonic() - t0
    write_evidence(check, seed, tier, tot, audit, wall, violations, vinfo)
    for k, n in sorted(tot["known"].items()):
        print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (prop, known[k]["what"], n))
    for k in known:
        if k not in tot["known"]:
            print("KNOWN-FINDING: property=%s %s (not met in this run)" % (prop, known[k]["what"]))
    print("%s: %d runs, %d non-trivial, %d distinct, %d steps, %.1f s simulated, %.1f s wall" % (
        prop, tot["n"], tot["nontrivial"], len(tot["sigs"]), tot["steps"], tot["sim_time"], wall))
    if violations:
        print(vinfo["class"], "::", vinfo["message"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif tot["errors"]:
        for e in tot["errors"]:
            print("HARNESS-ERROR", e, file=sys.stderr)
        exit_code = 2
    elif tot["n"] == 0:
        print("HARNESS-ERROR nothing ran", file=sys.stderr)
        exit_code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(exit_code)


def cmd_digests(prop, tier, seed, indices):
    check = get_check(prop)
    check.setup()
    sys.unraisablehook = lambda *a: None
    out = {}
    for i in indices:
        out[i] = engine.run_guarded(check, engine.make_case(check, seed, i, tier)).digest()
    print(json.dumps(out))
    sys.stdout.flush()
    os._exit(0)


def fresh_digests(prop, tier, seed, indices, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-m", "sim.main", "digests", prop, tier, str(seed),
                        ",".join(map(str, indices))], cwd=HERE, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=600)
    try:
        return json.loads(p.stdout.decode().strip().split("\n")[-1])
    except Exception:
        return None


def determinism_audit(check, seed, tier, tot):
    idx = sorted(int(i) for i in tot["digests"])[: (6 if tier == "quick" else 40)]
    try:
        got = fresh_digests(check.prop, tier, seed, idx, 12345)
    except subprocess.TimeoutExpired:
        got = None
    if got is None:
        return {"runs": 0, "note": "audit process gave no answer"}
    diff = [i for i in idx if got.get(str(i)) != tot["digests"][str(i)]]
    if diff:
        print("NOTE: event logs differ between processes for runs %s" % diff)
    return {"runs": len(idx), "differing_event_logs": len(diff)}


def write_evidence(check, seed, tier, tot, audit, wall, violations, vinfo):
    hours = max(tot["wall"], 1e-9) / 3600.0
    faults = {k[6:]: v for k, v in sorted(tot["stats"].items()) if k.startswith(("fault:", "fault_"))}
    other = {k: v for k, v in sorted(tot["stats"].items()) if not k.startswith(("fault:", "fault_"))}
    cov = {
        "evaluations": tot["n"],
        "distinct_nontrivial": len(tot["sigs"]),
        "rule": check.rule,
        "samples": tot["samples"][:3],
        "nontrivial_runs": tot["nontrivial"],
        "simulated_runs_per_hour": round(tot["n"] / hours),
        "seeds_per_hour": round(tot["n"] / hours),
        "simulated_seconds": round(tot["sim_time"], 3),
        "simulated_steps": tot["steps"],
        "faults_injected": faults,
        "probes": other,
        "distinct_measure": check.measure,
        "components_real": check.real,
        "components_stubbed": check.stubs,
        "determinism_audit": audit,
        "known_findings_met": dict(tot["known"]),
    }
    if vinfo:
        cov["violation"] = vinfo
    ev = {"property": check.prop, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % check.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, "evidence", check.prop + ".json"))


def cmd_selftest(props, n=40):
    """Many runs twice each, in several processes and under different hash seeds; compare event logs."""
    bad = 0
    for prop in props or sorted(MODULES):
        seed = int(os.environ.get("VERIF_SEED", "1"))
        idx = list(range(n))
        a = fresh_digests(prop, "quick", seed, idx, 0)
        b = fresh_digests(prop, "quick", seed, idx[::-1], 4242)
        c = {}
        for i in range(0, n, 10):
            c.update(fresh_digests(prop, "quick", seed, idx[i:i + 10], "random") or {})
        if a is None or b is None:
            print(prop, "NO ANSWER")
            bad += 1
            continue
        diff = [i for i in idx if not (a[str(i)] == b[str(i)] == c.get(str(i)))]
        print(prop, "runs", n, "x3", "differing", len(diff), diff[:5], flush=True)
        bad += bool(diff)
    os._exit(1 if bad else 0)


def main(argv):
    try:
        if argv[0] == "check":
            rest = argv[1:]
            runs = None
            if "--runs" in rest:
                i = rest.index("--runs")
                runs = int(rest[i + 1])
                rest = rest[:i] + rest[i + 2:]
            cmd_check(rest[0], rest[1] if len(rest) > 1 else None, runs)
        elif argv[0] == "replay":
            cmd_replay(argv[1], "--json" in argv)
        elif argv[0] == "digests":
            cmd_digests(argv[1], argv[2], int(argv[3]), [int(i) for i in argv[4].split(",")])
        elif argv[0] == "case":
            check = get_check(argv[1])
            check.setup()
            print(json.dumps(engine.make_case(check, int(os.environ.get("VERIF_SEED", "1")), int(argv[2]), "quick")))
        elif argv[0] == "selftest":
            cmd_selftest(argv[1:])
        else:
            raise engine.HarnessError("unknown command %r" % argv[0])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(2)


if __name__ == "__main__":
    main(sys.argv[1:])
