"""
Runs the check of one property:   python -m vlib.run C05 [--tier quick|thorough] [--job SUBSTR] [--budget S]
Replays a counterexample:         python -m vlib.run --replay FILE
"""
import argparse
import dataclasses
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import typing

import vlib  # noqa: F401  (sets up sys.path)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@dataclasses.dataclass
class Job:
    name: str
    fn: typing.Callable
    params: dict = dataclasses.field(default_factory=dict)
    path_timeout: float = 25.0
    kind: str = "paths"
    replay: typing.Callable | None = None  # task jobs: (assignment, params) -> (bool, text)


def load_check(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def known_findings(pid):
    """Lines of known_findings.txt:  'finding: property=<id> key=<key> <text>'  (and 'fixed: ...', which suppress nothing)."""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                f = dict(p.split("=", 1) for p in parts[1:3])
                if f.get("property") == pid:
                    out[f["key"]] = parts[3] if len(parts) > 3 else ""
    return out


def write_replay(pid, tier, job, v):
    d = os.path.join(ROOT, "replays", pid)
    os.makedirs(d, exist_ok=True)
    body = {
        "property": pid,
        "tier": tier,
        "job": job.name,
        "msg": v["msg"],
        "key": v.get("key"),
        "hang": v.get("hang", False),
        "assignment": v["assignment"],
        "stacks": v.get("stacks"),
    }
    text = json.dumps(body, indent=1, default=str, sort_keys=True)
    path = os.path.join(d, hashlib.sha1(text.encode()).hexdigest()[:12] + ".json")
    with open(path, "w") as f:
        f.write(text)
    return path


def do_replay(path, patched):
    """Exit 1 if the counterexample reproduces on the real code, 0 if it does not."""
    from vlib import env, symex

    env.prepare_worker()
    if patched:
        env.deterministic_node_hashes()
    r = json.load(open(path))
    check = load_check(r["property"])
    job = next((j for j in check.jobs(r["tier"]) if j.name == r["job"]), None)
    if job is None:
        print("no such job", r["job"])
        os._exit(3)
    if job.kind == "task":
        ok, text = job.replay(r["assignment"], job.params)
        print("REPRODUCED:" if ok else "NOT-REPRODUCED:", text)
        sys.stdout.flush()
        os._exit(1 if ok else 0)
    p = symex.ConcretePath(r["assignment"])
    try:
        job.fn(p, **job.params)
    except symex.Violation:
        pass
    except symex.PathAbort:
        print("NOT-REPRODUCED: an assumption does not hold")
        sys.stdout.flush()
        os._exit(0)
    if p.violations:
        print("REPRODUCED:", p.violations[0]["msg"])
        sys.stdout.flush()
        os._exit(1)
    print("NOT-REPRODUCED", ("(unassigned: %s)" % p.missing) if p.missing else "")
    sys.stdout.flush()
    os._exit(0)


def replay_in_subprocess(path, hang):
    """-> (reproduced, text)."""
    text = ""
    for patched in (False, True):
        cmd = [sys.executable, "-B", "-m", "vlib.run", "--replay", path]
        if patched:
            cmd.append("--patched-hash")
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONPATH=ROOT)
        try:
            r = subprocess.run(
                cmd, cwd=ROOT, env=env, capture_output=True, text=True, timeout=20 if hang else 90
            )
        except subprocess.TimeoutExpired:
            if hang:
                return True, "REPRODUCED: does not terminate (20 s)"
            text += " replay timed out"
            continue
        text = r.stdout[-2000:] + r.stderr[-2000:]
        if r.returncode == 1 and "REPRODUCED:" in r.stdout:
            return True, text
    return False, text


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--job")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--patched-hash", action="store_true")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    if args.replay:
        do_replay(args.replay, args.patched_hash)
    try:
        rc = run_check(args)
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def run_check(args):
    from vlib import env
    from vlib.pool import Pool

    pid = args.property
    tier = args.tier
    t0 = time.time()
    env.prepare_worker()
    env.deterministic_node_hashes()
    check = load_check(pid)
    from vlib import world

    world.REDUCE = tier != "thorough"
    jobs = check.jobs(tier)
    if args.job:
        jobs = [j for j in jobs if args.job in j.name]
    budget = args.budget or getattr(check, "BUDGET", {}).get(tier) or (300 if tier == "quick" else 1500)
    known = known_findings(pid)

    def is_known(v):
        return v.get("key") is not None and v["key"] in known

    pool = Pool(jobs, args.workers, t0 + budget, is_known=is_known)
    res = pool.run()
    found = list(res["violations"])
    for h in res["hangs"]:
        if h["assignment"] is not None:
            found.append(
                {
                    "msg": "does not terminate",
                    "key": "hang",
                    "assignment": h["assignment"],
                    "job": h["job"],
                    "hang": True,
                    "stacks": h["stacks"],
                }
            )
        else:
            res["errors"].append("hang without assignment: " + h["stacks"])
    validated = 0
    unreproduced = []
    reported = []
    known_seen = {}
    seen = set()
    for v in found:
        job = jobs[v["job"]]
        sig = (v["msg"], v.get("key"), job.name)
        if sig in seen or len(reported) >= 3 or len(unreproduced) >= 6:
            continue
        seen.add(sig)
        if is_known(v):
            if v["key"] in known_seen:
                continue
        path = write_replay(pid, tier, job, v)
        ok, text = replay_in_subprocess(path, v.get("hang"))
        if ok:
            validated += 1
            if is_known(v):
                known_seen[v["key"]] = v
            else:
                reported.append((path, v, text))
        else:
            unreproduced.append((path, v, text))

    total = {}
    for s in res["per_job"]:
        for k, x in s.as_dict().items():
            total[k] = total.get(k, 0) + x
    complete = all(res["complete"])
    samples = []
    for name, ss in sorted(res["samples"].items()):
        for s in ss[:1]:
            samples.append({"job": name, **s})
    samples = samples[:6] or [{"note": "no completed path without violation"}]
    level = getattr(check, "LEVEL", "other")
    explanation = check.EXPLANATION + (
        f" This run: {len(jobs)} harnesses, {total.get('paths', 0)} symbolic paths (or task analyses), "
        f"{total.get('queries', 0)} solver queries ({total.get('solver_s', 0):.1f} s in the solver), "
        f"{total.get('checks', 0)} property assertions decided, of which {total.get('sym_checks', 0)} over symbolic "
        f"values; exhausted within the bounds: {complete}."
    )
    incompletes = [
        {"job": j.name, "prefixes_left": res["leftover"][i]}
        for i, j in enumerate(jobs)
        if not res["complete"][i]
    ]
    coverage = {
        "explanation": explanation,
        "exhaustive": complete and not res["inconclusive"],
        "bounds": check.BOUNDS if not callable(check.BOUNDS) else check.BOUNDS(tier),
        "functions_encoded": sorted(res["functions"]),
        "paths": total.get("paths", 0),
        "paths_infeasible_assumption": total.get("aborted", 0),
        "branches_on_symbolic_values": total.get("branches", 0),
        "forks": total.get("forks", 0),
        "queries": total.get("queries", 0),
        "solver_s": round(total.get("solver_s", 0.0), 3),
        "unknown": total.get("unknown", 0),
        "assertions_decided": total.get("checks", 0),
        "assertions_over_symbolic_values": total.get("sym_checks", 0),
        "reachability_witnesses": res["tags"],
        "incomplete": incompletes,
        "inconclusive": res["inconclusive"][:10],
        "counterexamples_replayed_on_real_code": validated,
        "jobs": [
            {"job": j.name, **{k: round(x, 3) if isinstance(x, float) else x for k, x in s.as_dict().items()}}
            for j, s in zip(jobs, res["per_job"])
        ][:200],
        "samples": samples,
    }
    if "states" in total:
        coverage["states"] = total["states"]
        coverage["transitions"] = total.get("transitions", 0)
        coverage["traces_validated_against_impl"] = total.get("traces_validated", 0) + validated
    evidence = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": level,
        "coverage": coverage,
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    print(
        f"{pid} {tier}: {len(jobs)} jobs, paths={total.get('paths')} checks={total.get('checks')} "
        f"queries={total.get('queries')} solver={total.get('solver_s', 0):.1f}s complete={complete} "
        f"wall={time.time() - t0:.1f}s"
    )
    if args.v:
        for j, s, c in sorted(zip(jobs, res["per_job"], res["complete"]), key=lambda t: -t[1].paths)[:12] + [None] * 0:
            print("   ", j.name, "paths", s.paths, "queries", s.queries, "checks", s.checks, "complete" if c else "INCOMPLETE")
        for j, s, c in () and zip(jobs, res["per_job"], res["complete"]):
            print("   ", j.name, s.as_dict(), "complete" if c else "INCOMPLETE")
        print("   tags", res["tags"])
    for e in incompletes[:10]:
        print("INCOMPLETE", e)
    for e in sorted(set(res["inconclusive"]))[:10]:
        print("INCONCLUSIVE", e)
    for key, v in known_seen.items():
        print(f"KNOWN-FINDING: property={pid} {known[key] or v['msg']}")
    if reported:
        for path, v, text in reported:
            print(f"  {jobs[v['job']].name}: {v['msg']}")
            print(f"  {text.strip()[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    rc = 0
    for path, v, text in unreproduced:
        print(f"UNREPRODUCED {jobs[v['job']].name}: {v['msg']} {path}\n{text.strip()[:3000]}")
        rc = 4
    for e in res["errors"][:3]:
        print("ERROR", e)
        rc = 3
    if rc == 0:
        expected = set(getattr(check, "WITNESSES", ()))
        if total.get("checks", 0) == 0:
            print("VACUOUS: no assertion was reached")
            rc = 5
        elif not args.job and expected - set(res["tags"]):
            # (nothing can be said about those that the time did not suffice for)
            print("VACUOUS: witnesses not reached:", sorted(expected - set(res["tags"])))
            rc = 5 if complete else 0
    return rc


if __name__ == "__main__":
    main()
