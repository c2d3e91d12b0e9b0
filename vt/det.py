"""Runs operations in processes with different hash seeds and directory listing orders.

`Driver` is the parent's side; running this module is the child's side: one JSON request per line
{"dir", "order", "ops"}, one JSON answer per line (a list of outputs)."""
from __future__ import annotations

import atexit
import contextlib
import json
import os
import pathlib
import random
import subprocess
import sys

from vt import core


# -- parent ----------------------------------------------------------------------

class Driver:
    def __init__(self, base: pathlib.Path, hashseed: int) -> None:
        base.mkdir(parents=True, exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=str(core.VERIF))
        self.p = subprocess.Popen([sys.executable, "-m", "vt.det", str(base)], env=env, cwd=base, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        atexit.register(self.close)

    def close(self) -> None:
        with contextlib.suppress(OSError):
            self.p.stdin.close()
        self.p.kill()
        self.p.wait()

    def ask(self, request) -> list:
        try:
            self.p.stdin.write(json.dumps(request) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError as exc:
            raise core.HarnessError(f"driver: {exc}") from exc
        if not line:
            raise core.HarnessError("driver process ended")
        ans = json.loads(line)
        if "harness" in ans:
            raise core.HarnessError(ans["harness"])
        return ans["out"]


# -- child -----------------------------------------------------------------------

class Shuffled:
    """Directory listings in an order chosen by the request."""

    def __init__(self) -> None:
        self.rng = random.Random(0)
        self.listdir, self.scandir = os.listdir, os.scandir
        self.active = False

    def install(self) -> None:
        def listdir(*a):
            return self.mix(self.listdir(*a))

        class Scan:
            def __init__(s, items):
                s.it = iter(items)

            def __iter__(s):
                return s

            def __next__(s):
                return next(s.it)

            def __enter__(s):
                return s

            def __exit__(s, *a):
                s.close()

            def close(s):
                s.it = iter(())

        def scandir(*a):
            with self.scandir(*a) as it:
                return Scan(self.mix(list(it)))

        os.listdir, os.scandir = listdir, scandir

    def mix(self, items):
        if not self.active:
            return items
        key = sorted if items and isinstance(items[0], (str, bytes)) else (
            lambda x: sorted(x, key=lambda e: e.name))
        items = key(items)
        self.rng.shuffle(items)
        return items


def serve(base: pathlib.Path) -> None:
    core.isolate_process(base)
    ctx = core.Ctx(base)
    core.load_library()
    from vt.props import c27

    mix = Shuffled()
    mix.install()
    real_stdout = sys.stdout
    for line in sys.stdin:
        req = json.loads(line)
        ctx.begin()
        mix.rng.seed(req["order"])
        mix.active = True
        out, answer = [], None
        try:
            for op in req["ops"]:
                sys.stdout = sys.stderr
                out.append(c27.run_op(op, pathlib.Path(req["dir"]), ctx))
            answer = {"out": out}
        except core.HarnessError as exc:
            answer = {"harness": str(exc)}
        finally:
            sys.stdout = real_stdout
            mix.active = False
            ctx.end()
        real_stdout.write(json.dumps(answer) + "\n")
        real_stdout.flush()


if __name__ == "__main__":
    serve(pathlib.Path(sys.argv[1]))
