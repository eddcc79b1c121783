"""Worker process: imports the code under test once, forks one child per run.

Protocol: one JSON request per stdin line, one JSON answer per stdout line.
  {"cmd": "seeds", "prop": P, "seed": S, "start": a, "count": n, "tier": T}
      -> one line per run: {"run": i, "result": {...}, "plan": {...} if it failed}
      -> {"done": true}
  {"cmd": "plan", "prop": P, "plan": {...}}  -> {"result": {...}}
"""

from __future__ import annotations

import gc
import importlib
import json
import os
import random
import select
import signal
import sys

from . import kernel, nest

RUN_TIMEOUT = 120


def import_library():
    """Import htmltools from REPO's working tree (never from anywhere else)."""
    sys.path.insert(0, kernel.REPO)
    sys.dont_write_bytecode = True
    import htmltools

    f = os.path.realpath(htmltools.__file__)
    want = os.path.realpath(kernel.PKG)
    if not f.startswith(want):
        raise SystemExit(f"wrong htmltools imported: {f}")
    import htmltools._jsx  # noqa: F401
    import htmltools.svg  # noqa: F401
    import htmltools.tags  # noqa: F401

    kernel.instrument()


def rng_for(seed, prop, run):
    return random.Random(f"{seed}/{prop}/{run}")


def make_plan(mod, seed, prop, run, tier):
    rng = rng_for(seed, prop, run)
    plan = mod.generate(rng, tier)
    plan["_run"] = run
    n = nest.choose(rng_for(seed, prop, f"{run}/nest"), prop)
    if n:
        plan["_nest"] = n
    return plan


def fork_run(mod, plan):
    """Execute one plan in a forked child with pristine library state."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            gc.disable()
            signal.alarm(RUN_TIMEOUT)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            res = kernel.run_plan(mod, plan)
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off : off + 65536])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    try:
        return json.loads(data)
    except ValueError:
        return {
            "violations": [],
            "error": f"run process ended without a result (status {status})",
            "digest": "",
            "sig": "",
            "fired": {},
            "probes": {},
            "steps": 0,
            "switches": 0,
            "events": 0,
        }


def emit(o):
    sys.stdout.write(json.dumps(o) + "\n")
    sys.stdout.flush()


def main():
    kernel.install_lock_seam()
    import_library()
    mods = {}

    def get(prop):
        if prop not in mods:
            m = importlib.import_module("sim.props." + prop.lower())
            if hasattr(m, "prepare"):
                m.prepare()
            mods[prop] = m
            gc.collect()
            gc.freeze()
        return mods[prop]

    for line in sys.stdin:
        req = json.loads(line)
        if req["cmd"] == "seeds":
            mod = get(req["prop"])
            for i in range(req["start"], req["start"] + req["count"]):
                plan = make_plan(mod, req["seed"], req["prop"], i, req["tier"])
                res = fork_run(mod, plan)
                out = {"run": i, "result": res}
                if res["violations"] or res.get("error") or i == req.get("sample"):
                    out["plan"] = plan
                emit(out)
            emit({"done": True})
        elif req["cmd"] == "plan":
            mod = get(req["prop"])
            emit({"result": fork_run(mod, req["plan"])})
        else:
            break


if __name__ == "__main__":
    main()
