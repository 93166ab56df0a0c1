#!/usr/bin/env python3
"""Runs the simulation check of one property.

  check.py C09 [--tier quick|thorough]     explore; exit 0 held, 1 violation
  check.py --replay FILE                   reproduce a recorded violation

VERIF_SEED decides every run. A violation is reported only after it was
reproduced twice in this batch, minimised, and reproduced exactly in two fresh
processes from the replay file alone.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B  # noqa: E402
from meta import META, REAL_COMPONENTS, STUBS  # noqa: E402

WORKERS = int(os.environ.get("F2C_WORKERS", "8"))
# seconds of exploration per tier
BUDGET = {"quick": 40, "thorough": 480}


def fail(msg):
    print("CHECK-ERROR " + msg)
    sys.exit(2)


def known_findings(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            d = json.load(f)
    except OSError:
        return []
    return [k for k in d.get("known", []) if k["property"] == prop]


def listed(known, cls, msg):
    for k in known:
        if k["class"] == cls and re.search(k["message"], msg, re.S):
            return k
    return None


class Worker(threading.Thread):
    def __init__(self, cmd, timeout):
        super().__init__()
        self.cmd, self.timeout = cmd, timeout
        self.lines, self.rc = [], None

    def run(self):
        try:
            r = subprocess.run(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, errors="replace", timeout=self.timeout)
            self.lines, self.rc = r.stdout.splitlines(), r.returncode
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
            self.lines = (out.decode(errors="replace") if isinstance(out, bytes) else out).splitlines()
            self.rc = 124


def run_workers(binary, scratch, seed, n, total, deadline, samples, extra=(), start=0):
    ws = []
    for i in range(n):
        d = os.path.join(scratch, f"w{start}_{i}")
        os.makedirs(d, exist_ok=True)
        ws.append(Worker([binary, "worker", "--seed", str(seed), "--start", str(start + i), "--stride", str(n),
                          "--count", str((total - i + n - 1) // n), "--deadline", str(deadline),
                          "--hashes", "1", "--samples", str(samples if i == 0 else 0),
                          "--scratch", d, *extra], deadline + 260))
    for w in ws:
        w.start()
    for w in ws:
        w.join()
    return ws


def parse(ws):
    res = dict(hash={}, found=[], samples=[], counts={}, sigs=set(), runs=0, nontrivial=0, events=0,
               simtime=0.0, busy=0.0, errors=[])
    for w in ws:
        for l in w.lines:
            k, _, rest = l.partition(" ")
            if k == "HASH":
                run, h, s, st, *c = rest.split(" ")
                res["hash"][int(run)] = (h, s, st, c[0] if c else "")
            elif k == "FOUND":
                head, _, msg = rest.partition("\t")
                run, _, cls = head.partition(" ")
                res["found"].append((int(run), cls, msg))
            elif k == "SAMPLE":
                run, _, t = rest.partition(" ")
                res["samples"].append((int(run), t))
            elif k == "STATS":
                a = rest.split()
                res["runs"] += int(a[0]); res["nontrivial"] += int(a[1]); res["events"] += int(a[2])
                res["simtime"] += float(a[3]); res["busy"] += float(a[4])
            elif k == "COUNT":
                n, _, v = rest.rpartition(" ")
                res["counts"][n] = res["counts"].get(n, 0) + int(v)
            elif k == "SIG":
                res["sigs"].add(rest)
            elif k == "ERROR":
                res["errors"].append(rest)
        if w.rc != 0 and not res["errors"] and not any(l.startswith("FOUND") for l in w.lines):
            res["errors"].append(f"worker ended with {w.rc}")
    return res


def replay_once(binary, scratch, path):
    r = subprocess.run([binary, "replay", "--file", path, "--scratch", scratch],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=300)
    return r.returncode, r.stdout


def do_replay(path):
    prop = None
    with open(path) as f:
        for l in f:
            if l.startswith("property "):
                prop = l.split()[1]
    if not prop:
        fail("no property in " + path)
    B.build([prop])
    scratch = tempfile.mkdtemp(prefix="f2c_sim_", dir="/tmp")
    try:
        rc, out = replay_once(os.path.join(B.BUILD, prop), scratch, path)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(out)
    if rc == 1:
        print(f"VIOLATION property={prop} replay={path}")
    sys.exit(0 if rc == 0 else 1 if rc in (1, 5) else 2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        do_replay(a.replay)
    prop = a.prop
    t0 = time.time()
    B.build([prop])
    t_build = time.time() - t0
    binary = os.path.join(B.BUILD, prop)
    scratch = tempfile.mkdtemp(prefix="f2c_sim_", dir="/tmp")
    try:
        explore(prop, a, binary, scratch, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, a, binary, scratch, t0, t_build):
    m = META[prop]
    budget = a.budget or m.get("budget", BUDGET).get(a.tier, BUDGET[a.tier])
    known = known_findings(prop)
    ws = run_workers(binary, scratch, a.seed, WORKERS, m.get("runs", {}).get(a.tier, 10_000_000), budget, 3,
                     ("--continue", "1") if known else ())
    t_explore = time.time() - t0 - t_build
    r = parse(ws)
    violations = []
    status = 0
    seen_known = {}
    replays = os.path.join(VERIF, "evidence", "replays")
    unconfirmed = []
    by_class = {}
    for run, cls, msg in sorted(r["found"]):
        k = listed(known, cls, msg)
        if k:
            seen_known[k["what"]] = (run, msg)
            continue
        by_class.setdefault(cls, []).append((run, msg))
    for cls, lst in by_class.items():
        for run, msg in lst[:3]:
            os.makedirs(replays, exist_ok=True)
            path = os.path.join(replays, f"{prop}_seed{a.seed}_run{run}.replay")
            mn = subprocess.run([binary, "minimise", "--seed", str(a.seed), "--run", str(run), "--out", path,
                                 "--budget", "30" if a.tier == "quick" else "120", "--scratch", scratch],
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            ok = mn.returncode == 0
            for _ in range(2):
                if ok:
                    rc, out = replay_once(binary, scratch, path)
                    ok = rc == 1
            if ok:
                violations.append((cls, path, msg, mn.stdout.strip()))
                break
            unconfirmed.append(f"run {run} class {cls}: {mn.stdout.strip()[:300]}")
        if violations:
            break
    # determinism: the first runs again, under another worker layout
    checked = mismatched = 0
    if not violations and not r["errors"] and not by_class:
        n2 = min(m.get("recheck", 40), len(r["hash"]))
        r2 = parse(run_workers(binary, scratch, a.seed, 3, n2, 60, 0, ("--continue", "1")))
        for run, h in r2["hash"].items():
            if run in r["hash"]:
                checked += 1
                if r["hash"][run] != h:
                    mismatched += 1
                    print(f"nondeterminism: run {run}: {r['hash'][run]} vs {h}")
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(r["counts"].items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(r["counts"].items()) if k.startswith("probe.")}
    opsn = {k[3:]: v for k, v in sorted(r["counts"].items()) if k.startswith("op.")}
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": r["runs"],
            "distinct_nontrivial": len(r["sigs"]),
            "rule": m["rule"],
            "samples": [{"run": run, "execution": t.replace("\\n", "\n")[:2500].split("\n")} for run, t in r["samples"]],
            "runs_nontrivial": r["nontrivial"],
            "runs_per_hour": int(r["runs"] * 3600 / max(t_explore, 1e-3)),
            "seeds_per_hour": int(r["runs"] * 3600 / max(t_explore, 1e-3)),
            "events": r["events"],
            "simulated_seconds": round(r["simtime"], 3),
            "faults_fired": faults,
            "conditions_reached": probes,
            "operations": opsn,
            "distinct_states_or_interleavings": len(r["sigs"]),
            "distinct_measure": m["measure"],
            "determinism_recheck": {"runs_executed_again_in_other_worker_layout": checked, "different": mismatched},
            "real_components": REAL_COMPONENTS[m["variant"]],
            "stubbed_components": STUBS[m["variant"]],
            "build_s": round(t_build, 1), "explore_s": round(t_explore, 1),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": m["assumptions"],
        "wall_s": round(wall, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))

    print(f"{prop}: {r['runs']} runs ({r['nontrivial']} non-trivial, {len(r['sigs'])} distinct) in {t_explore:.0f} s"
          f" on {WORKERS} workers; faults {faults}; probes {probes}")
    for k in known:
        # each listed finding is shown on its recorded history
        path = os.path.join(VERIF, k["replay"])
        rc, out = replay_once(binary, scratch, path)
        if rc in (1, 5):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u in unconfirmed:
        print("unconfirmed: " + u)
    for cls, path, msg, mn in violations:
        print(f"{cls}: {msg[:1500]}")
        print(mn)
        print(f"VIOLATION property={prop} replay={path}")
        status = 1
    if status == 0 and (unconfirmed or by_class):
        fail("a violation was found that could not be reproduced")
    if status == 0 and r["errors"]:
        fail("; ".join(r["errors"])[:2000])
    if status == 0 and mismatched * 5 > checked:
        fail(f"{mismatched} of {checked} runs were not deterministic")
    if status == 0 and r["runs"] == 0:
        fail("no runs")
    sys.exit(status)


if __name__ == "__main__":
    main()
