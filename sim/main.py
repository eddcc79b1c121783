"""Command line: run one property's simulation, write evidence, report.

  check PROP [--tier quick|thorough] [--seed N] [--runs N] [--jobs N]
  check PROP --replay FILE
  check PROP --determinism        run every seed twice and compare event logs
"""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter

from .shrink import Shrinker, size

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
CHUNK = 50


class Worker:
    """One worker process with a given hash seed."""

    def __init__(self, hashseed):
        env = dict(os.environ)
        for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
            env.pop(k, None)
        env.update(
            PYTHONHASHSEED=str(hashseed),
            PYTHONDONTWRITEBYTECODE="1",
            LC_ALL="C.UTF-8",
            TZ="UTC",
        )
        self.hashseed = hashseed
        self.p = subprocess.Popen(
            [PY, "-m", "sim.worker"],
            cwd=VERIF,
            env=env,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
        )
        self._err = []
        threading.Thread(target=self._drain, daemon=True).start()

    def _drain(self):
        for line in self.p.stderr:
            self._err.append(line)
            del self._err[:-50]

    def send(self, req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            time.sleep(0.05)
            raise RuntimeError("worker died: " + "".join(self._err)[-3000:])
        return json.loads(line)

    def plan(self, prop, plan):
        self.send({"cmd": "plan", "prop": prop, "plan": plan})
        return self.recv()["result"]

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


def hashseed_for(seed, chunk):
    return int(hashlib.sha1(f"hash/{seed}/{chunk}".encode()).hexdigest()[:7], 16)


def run_batch(prop, seed, tier, runs, jobs, salt=0, wall=None, chunk=CHUNK):
    """Run `runs` seeded runs; returns ({run: record}, errors)."""
    todo = queue.Queue()
    for c, a in enumerate(range(0, runs, chunk)):
        todo.put((c, a, min(chunk, runs - a)))
    records, errors = {}, []
    lock = threading.Lock()
    stop_at = [1 << 60]
    t_end = time.monotonic() + wall if wall else None

    def loop():
        while True:
            try:
                c, a, n = todo.get_nowait()
            except queue.Empty:
                return
            if a > stop_at[0]:
                continue
            if t_end and time.monotonic() > t_end:
                with lock:
                    errors.append("wall-clock limit reached before all runs were done")
                return
            w = Worker(hashseed_for(seed + salt * 1000003, c))
            try:
                w.send(
                    {
                        "cmd": "seeds",
                        "prop": prop,
                        "seed": seed,
                        "start": a,
                        "count": n,
                        "tier": tier,
                        "sample": a if c < 3 else -1,
                    }
                )
                while True:
                    r = w.recv()
                    if r.get("done"):
                        break
                    r["hashseed"] = w.hashseed
                    with lock:
                        records[r["run"]] = r
                        if r["result"]["violations"] and r["run"] < stop_at[0]:
                            stop_at[0] = r["run"]
                    if r["run"] > stop_at[0]:
                        break
            except Exception as e:
                with lock:
                    errors.append(f"chunk {c}: {e}")
            finally:
                w.close()

    ths = [threading.Thread(target=loop) for _ in range(jobs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return records, errors


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def is_known(prop, v, findings):
    for f in findings:
        if f.get("status") == "known" and f["property"] == prop and f["cls"] == v["cls"]:
            if all(s in v["msg"] for s in f.get("msg_contains", [])):
                return f
    return None


def real_violations(prop, res, findings):
    return [v for v in res["violations"] if not is_known(prop, v, findings)]


def write_replay(prop, plan, hashseed, cls, info):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {
        "property": prop,
        "class": cls,
        "hashseed": hashseed,
        "plan": plan,
        **info,
    }
    name = hashlib.sha1(json.dumps([plan, cls], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, ensure_ascii=True)
        f.write("\n")
    return path


def do_replay(prop, path):
    with open(path) as f:
        rep = json.load(f)
    w = Worker(rep["hashseed"])
    try:
        res = w.plan(prop, rep["plan"])
    finally:
        w.close()
    if res.get("error"):
        print("harness error:\n" + res["error"])
        return 2
    same = [v for v in res["violations"] if v["cls"] == rep["class"]]
    for v in same or res["violations"]:
        print(f"  [{v['cls']}] {v['msg']}")
    print(f"event-log digest {res['digest']} (recorded {rep.get('digest')})")
    if same:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("violation did not reproduce on this tree")
    return 0


def minimise(prop, rec, cls, budget):
    w = Worker(rec["hashseed"])
    try:

        def test(plan):
            nonlocal w
            try:
                r = w.plan(prop, plan)
            except Exception:
                w.close()
                w = Worker(rec["hashseed"])
                return False
            return not r.get("error") and any(v["cls"] == cls for v in r["violations"])

        if not test(rec["plan"]):
            return rec["plan"], 0, False
        sh = Shrinker(test, budget_s=budget, frozen=getattr(importlib.import_module("sim.meta"), "FROZEN", {}).get(prop, ()))
        return sh.run(rec["plan"]), sh.tests, True
    finally:
        w.close()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--replay")
    ap.add_argument("--determinism", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--shrink-s", type=float, default=45.0)
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop = a.prop.upper()
    # scratch space of the run processes (which work as an unprivileged user)
    base = tempfile.mkdtemp(prefix="vsim-")
    os.chmod(base, 0o1777)
    os.environ["VSIM_SCRATCH"] = base
    try:
        return run(a, prop)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run(a, prop):
    if a.replay:
        return do_replay(prop, a.replay)
    meta = importlib.import_module("sim.meta").META[prop]
    runs = a.runs or meta["runs"][a.tier]
    t0 = time.monotonic()
    print(f"seed={a.seed} property={prop} tier={a.tier} runs={runs} jobs={a.jobs}", flush=True)

    if a.determinism:
        r1, e1 = run_batch(prop, a.seed, a.tier, runs, a.jobs)
        r2, e2 = run_batch(prop, a.seed, a.tier, runs, max(1, a.jobs // 2), salt=1, chunk=17)
        bad = [i for i in r1 if r1[i]["result"]["digest"] != r2.get(i, {"result": {"digest": None}})["result"]["digest"]]
        print(f"{len(r1)} runs twice, {len(bad)} differ {bad[:10]} errors {e1 + e2}")
        return 1 if bad or e1 or e2 else 0

    findings = load_findings()
    wall = 780 if a.tier == "quick" else None
    records, errors = run_batch(prop, a.seed, a.tier, runs, a.jobs, wall=wall)
    wall_runs = time.monotonic() - t0

    # --- collect -----------------------------------------------------------
    fired, probes = Counter(), Counter()
    steps = switches = 0
    digests, sigs, nontrivial = set(), set(), set()
    harness = []
    failing = []
    for i in sorted(records):
        res = records[i]["result"]
        if res.get("error"):
            harness.append((i, res["error"]))
        fired.update(res["fired"])
        probes.update(res["probes"])
        steps += res["steps"]
        switches += res["switches"]
        digests.add(res["digest"])
        if res["sig"]:
            sigs.add(res["sig"])
        if res["fired"] or res["switches"] or res["events"] >= 3:
            nontrivial.add(res["digest"])
        if real_violations(prop, res, findings):
            failing.append(i)
    samples = [
        {"run": i, "plan": records[i]["plan"]} for i in sorted(records) if "plan" in records[i]
    ][:2]
    for s in samples:
        if size(s["plan"]) > 6000:
            s["plan"] = json.dumps(s["plan"])[:6000] + "..."

    rc = 0
    if failing:
        i = failing[0]
        rec = records[i]
        v = real_violations(prop, rec["result"], findings)[0]
        plan, tests, repro = minimise(prop, rec, v["cls"], a.shrink_s)
        w = Worker(rec["hashseed"])
        try:
            final = w.plan(prop, plan)
        finally:
            w.close()
        fv = [x for x in final["violations"] if x["cls"] == v["cls"]] or [v]
        path = write_replay(
            prop,
            plan,
            rec["hashseed"],
            v["cls"],
            {
                "seed": a.seed,
                "run": i,
                "tier": a.tier,
                "message": fv[0]["msg"],
                "digest": final["digest"],
                "reproduced_in_fresh_process": repro,
                "minimiser_runs": tests,
                "original_plan_bytes": size(rec["plan"]),
                "plan_bytes": size(plan),
            },
        )
        print(f"run {i}: [{fv[0]['cls']}] {fv[0]['msg']}")
        print(f"minimised {size(rec['plan'])} -> {size(plan)} bytes in {tests} runs; reproduced={repro}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
    elif errors or harness:
        for e in errors[:5]:
            print("ERROR", e)
        for i, e in harness[:3]:
            print(f"ERROR run {i}: {e}")
        rc = 2
    zero = [p for p in meta.get("must_reach", []) if not (probes.get(p) or fired.get(p))]
    if rc == 0 and zero and runs >= meta["runs"]["quick"]:
        print("ERROR probes never reached:", zero)
        rc = 2

    for f in findings:
        if f["property"] == prop and f.get("status") == "known" and rc != 2:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")

    wall_s = time.monotonic() - t0
    if not a.no_evidence:
        ev = {
            "property": prop,
            "tier": a.tier,
            "seed": a.seed,
            "level": meta["level"],
            "coverage": {
                "evaluations": len(records),
                "distinct_nontrivial": len(nontrivial),
                "rule": meta["rule"],
                "samples": samples,
                "runs_per_hour": round(len(records) / max(wall_runs, 1e-6) * 3600),
                "seeds": f"VERIF_SEED={a.seed}, runs 0..{runs - 1}, one derived seed per run",
                "simulated_time": f"{steps} scheduler steps (library lines or calls into foreign code); the library has no clock",
                "scheduler_steps": steps,
                "preemptions": switches,
                "faults_fired": dict(sorted(fired.items())),
                "probes": dict(sorted(probes.items())),
                "distinct_event_logs": len(digests),
                "distinct_interleavings": len(sigs),
                "interleaving_measure": "distinct sequences of (task, library file, function, line) at which a task was preempted",
                "real_components": meta["real"],
                "stubbed_components": meta["stub"],
                "unreached_probes": zero,
                "harness_errors": len(harness) + len(errors),
            },
            "assumptions": meta["assumptions"],
            "wall_s": round(wall_s, 2),
            "violations": len(failing),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(d, f"{prop}.json"))
    print(
        f"{len(records)} runs, {steps} steps, {switches} preemptions ({len(sigs)} distinct interleavings), "
        f"{sum(fired.values())} faults fired, {len(failing)} failing, {wall_s:.1f}s"
    )
    return rc


if __name__ == "__main__":
    sys.exit(main())
