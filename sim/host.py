"""A simulated host for C18: an interpreter process of its own (hash seed, flags,
locale), which forks one child per request and runs the plan's constructions in it.

  stdin:  {"id": n, "cfg": {...}, "plan": {...}}     one JSON line
  stdout: {"id": n, "result": {...}}
"""

from __future__ import annotations

import gc
import json
import os
import signal
import sys

from . import kernel
from .worker import import_library

TIMEOUT = 60


def main():
    kernel.install_lock_seam()
    import_library()
    from .props import c18

    gc.collect()
    gc.freeze()
    out = sys.stdout
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        out.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.alarm(TIMEOUT)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 0)
                os.dup2(null, 1)
                data = json.dumps(c18.run_host(req["cfg"], req["plan"])).encode()
                off = 0
                while off < len(data):
                    off += os.write(w, data[off : off + 65536])
            except BaseException:
                code = 3
                import traceback

                os.write(w, json.dumps({"error": traceback.format_exc()}).encode())
            finally:
                os._exit(code)
        os.close(w)
        buf = []
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
        os.close(r)
        os.waitpid(pid, 0)
        try:
            res = json.loads(b"".join(buf))
        except ValueError:
            res = {"error": "the host process ended without a result"}
        out.write(json.dumps({"id": req["id"], "result": res}) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
