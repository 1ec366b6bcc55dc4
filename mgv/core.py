"""
Orchestrator: starts the worker processes, collects the verdicts of the cases,
writes the evidence file and prints the verdict.
Runs under any Python 3; the workers run under the interpreter that has
modulegraph2's dependencies.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MGV_DEV_REPO", "/repo")   # (another copy during development only)
PYTHON = "/opt/venv/bin/python"
NWORKERS = int(os.environ.get("MGV_WORKERS", "8"))


def load_known():
    """known_findings.jsonl: one JSON object per line."""
    res = {}
    fn = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(fn):
        for ln in open(fn):
            ln = ln.strip()
            if ln.startswith("{"):
                d = json.loads(ln)
                if d.get("status") == "known":
                    res[(d["property"], d["probe"])] = d["what"]
    return res


def worker_cmd(pid, tier, seed, widx, nworkers, ncases, scratch, only=None):
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith("PYTHON") and k not in ("VIRTUAL_ENV",)
    }
    env["PYTHONHASHSEED"] = str((seed * 1009 + widx * 7 + 1) % 4294967295)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["MGV_SCRATCH"] = scratch
    env["LC_ALL"] = "C.UTF-8"
    cmd = [
        PYTHON, "-S", "-X", "pycache_prefix=" + os.path.join(scratch, "pyc"),
        os.path.join(ROOT, "mgv", "worker.py"),
        pid, tier, str(seed), str(widx), str(nworkers), str(ncases), scratch,
    ]
    if only is not None:
        cmd.append(str(only))
    return cmd, env


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    pid = args.pid
    args.worker = None
    if args.replay:
        rp = json.load(open(args.replay))
        assert rp["property"] == pid, rp["property"]
        args.seed, args.tier, args.case = rp["seed"], rp["tier"], str(rp["case"])
        args.worker = rp.get("worker")
    t0 = time.time()
    base = os.environ.get("TMPDIR") or "/tmp"
    scratch = tempfile.mkdtemp(prefix="mgv-%s-" % pid, dir=base)
    try:
        return run(pid, args, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, args, scratch, t0):
    seed, tier = args.seed, args.tier
    meta = None
    results = []
    errors = []
    lock = threading.Lock()

    def drive(widx, only):
        nonlocal meta
        ws = os.path.join(scratch, "w%d" % widx)
        os.makedirs(ws, exist_ok=True)
        cmd, env = worker_cmd(pid, tier, seed, widx, NWORKERS, args.cases or -1, ws, only)
        env["MGV_SCALE"] = str(args.scale)
        with open(os.path.join(ws, "stderr"), "wb") as err:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, env=env, cwd=ws,
                                 stdin=subprocess.DEVNULL)
            done = False
            for ln in p.stdout:
                try:
                    d = json.loads(ln)
                except ValueError:
                    continue
                with lock:
                    if d["t"] == "meta":
                        meta = d
                    elif d["t"] == "case":
                        d["w"] = widx
                        results.append(d)
                    elif d["t"] == "done":
                        done = True
            p.wait()
        if p.returncode != 0 or not done:
            tail = open(os.path.join(ws, "stderr"), errors="replace").read()[-3000:]
            with lock:
                errors.append("worker %d: exit %s\n%s" % (widx, p.returncode, tail))

    if args.case is not None:
        # a case number fixes the worker (and with it the hash seed); probes run in worker 0
        widx = int(args.case) % NWORKERS if args.case.lstrip("-").isdigit() else 0
        if args.worker is not None:
            widx = args.worker
        drive(widx, args.case)
    else:
        ths = [threading.Thread(target=drive, args=(w, None)) for w in range(NWORKERS)]
        [t.start() for t in ths]
        [t.join() for t in ths]
    if meta is None:
        print("ERROR: no worker started\n" + "\n".join(errors))
        return 2

    known = load_known()
    viol, knownhits, timeouts, harness = [], [], [], []
    sigs, counters, samples = set(), {}, []
    evaluations = 0
    results.sort(key=lambda d: (0, d["case"]) if isinstance(d["case"], int) else (1, str(d["case"])))
    for d in results:
        evaluations += 1
        for k, v in d.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        if d["verdict"] == "violation":
            key = (pid, d["case"]) if not isinstance(d["case"], int) else None
            if key in known:
                knownhits.append((d["case"], known[key]))
            else:
                viol.append(d)
        elif d["verdict"] == "timeout":
            timeouts.append(d)
        elif d["verdict"] == "error":
            harness.append(d)
        else:
            if d.get("nontrivial") and d.get("sig"):
                sigs.add(d["sig"])
            if d.get("sample") is not None and len(samples) < 4:
                samples.append(d["sample"])
    for name, what in knownhits:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, name, what))
    wall = time.time() - t0
    cov = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(sigs),
        "rule": meta["rule"],
        "samples": samples or [{"note": "no sample kept"}],
        "observed": dict(sorted(counters.items())),
        "inconclusive_timeouts": len(timeouts),
        "known_findings_reproduced": sorted(n for n, _ in knownhits),
        "probes": sorted(str(d["case"]) for d in results if not isinstance(d["case"], int)),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if args.case is None and "MGV_DEV_REPO" not in os.environ:
        ev = {
            "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2),
            "violations": len(viol),
        }
        tmp = os.path.join(ROOT, "evidence", pid + ".json.tmp")
        with open(tmp, "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
            fp.write("\n")
        os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    if viol:
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        # group by message head, so that different mechanisms are all shown
        seen = {}
        for d in viol:
            key = d["msg"].split(":")[0][:60]
            seen.setdefault(key if len(seen) < 5 or "MGV_SHOW" not in os.environ else str(len(seen)), d)
        for i, d in enumerate(list(seen.values())[: int(os.environ.get("MGV_SHOW", "5"))]):
            fn = os.path.join(rdir, "%s-%s-%s.json" % (pid, seed, str(d["case"]).replace("/", "_")))
            with open(fn, "w") as fp:
                json.dump({"property": pid, "tier": tier, "seed": seed, "case": d["case"],
                           "worker": d["w"], "message": d["msg"], "detail": d.get("detail"),
                           "replay_with": "python3 run.py %s --replay %s" % (pid, fn)}, fp, indent=1)
                fp.write("\n")
            print("VIOLATION property=%s replay=%s" % (pid, fn))
            print("   case %s: %s" % (d["case"], d["msg"][:1500]))
            if args.v:
                print(json.dumps(d.get("detail"), indent=1)[:6000])
        print("%s: %d violating cases of %d" % (pid, len(viol), evaluations))
        return 1
    if harness or errors:
        for d in harness[:3]:
            print("ERROR in the check itself, case %s: %s" % (d["case"], d["msg"]))
        for e in errors[:3]:
            print("ERROR", e)
        return 2
    if args.case is None:
        low = {k: (counters.get(k, 0), v) for k, v in meta["min"].items() if counters.get(k, 0) < v}
        if low or len(timeouts) > max(2, evaluations // 20):
            print("INCONCLUSIVE: observed too little: %s, timeouts %d" % (low, len(timeouts)))
            return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1fs; %s" % (
        pid, evaluations, len(sigs), wall, " ".join("%s=%d" % i for i in sorted(counters.items()))))
    return 0
