"""C32: calls made from several threads answer as if they were made one after another."""
import sys
import threading
import zlib

from hypothesis import strategies as st

from vt.core import REPO, Check, HarnessError, Violation, expect, expect_eq, reset_library
from vt.props import c05
from vt.props.c08 import case_history, case_plugin_history, machinery, snap, world

FOCI = 8
CODE = str(REPO / "variantlib") + "/"


def schedule(big):
    """Lines of library code that a thread runs before the next one goes on."""
    return st.lists(st.one_of(st.integers(1, 12), st.integers(1, 60), st.integers(1, big)), min_size=4, max_size=40)


@st.composite
def case_threads(draw, base, big):
    c = draw(base)
    n = draw(st.integers(2, 3))
    ops = c["ops"][:9]
    if draw(st.booleans()):
        # the same calls everywhere
        c["threads"] = [ops[:3] for _ in range(n)]
    else:
        c["threads"] = [ops[k::n] for k in range(n)]
    c["schedule"] = draw(schedule(big))
    # change over at every few lines of some of the functions only
    c["focus"] = draw(st.none() | st.integers(0, FOCI - 1))
    c["shared"] = draw(st.booleans())
    return c


class Scheduler:
    """Runs one thread at a time, changing over after the scheduled numbers of lines."""

    def __init__(self, slices, focus=None, patience=1.5):
        self.slices = list(reversed(slices))
        self.focus = focus
        if focus is not None:
            self.slices = [1 + k % 3 for k in self.slices] * 12
        self.left = self.slices.pop()
        self.turns = []
        self.alive = []
        self.current = 0
        self.free = False            # given up: a paused thread holds something that the running one needs
        self.switches = 0
        self.patience = patience

    def spawn(self, fns):
        self.turns = [threading.Semaphore(0) for _ in fns]
        self.alive = list(range(len(fns)))
        self.errors = []
        threads = [threading.Thread(target=self._main, args=(k, fn), daemon=True) for k, fn in enumerate(fns)]
        for t in threads:
            t.start()
        self.turns[0].release()
        for t in threads:
            t.join(100)
            if t.is_alive():
                raise HarnessError("a thread does not end")
        if self.errors:
            raise self.errors[0]

    def _main(self, k, fn):
        self._wait(k)
        sys.settrace(lambda frame, event, arg: self._enter(frame, k))
        try:
            fn()
        except BaseException as exc:  # noqa: BLE001
            self.errors.append(exc)
        finally:
            sys.settrace(None)
            i = self.alive.index(k)
            self.alive.remove(k)
            if self.alive and self.current == k:
                self.current = self.alive[i % len(self.alive)]
                self.turns[self.current].release()

    def _enter(self, frame, k):
        if not frame.f_code.co_filename.startswith(CODE):
            return None
        if self.focus is not None and zlib.crc32(frame.f_code.co_qualname.encode()) % FOCI != self.focus:
            return None

        def line(_frame, event, _arg):
            if event == "line" and not self.free:
                self.left -= 1
                if self.left <= 0 and self.slices:
                    self.left = self.slices.pop()
                    self._change(k)
            return line

        return line

    def _change(self, k):
        if len(self.alive) < 2:
            return
        self.switches += 1
        self.current = self.alive[(self.alive.index(k) + 1) % len(self.alive)]
        self.turns[self.current].release()
        self._wait(k)

    def _wait(self, k):
        while not self.free and not self.turns[k].acquire(timeout=self.patience):
            self.free = True


def check(case, ctx):
    fresh, answer, expand = machinery(case, ctx)
    pools = [fresh()] * len(case["threads"]) if case["shared"] else [fresh() for _ in case["threads"]]
    before = [{k: snap(v) for k, v in p.items()} for p in pools]
    around = world()
    got: list = [[] for _ in case["threads"]]

    def calls(n):
        def run():
            for op, i, j in case["threads"][n]:
                got[n].append(answer(pools[n], op, i, j))
        return run

    sched = Scheduler(case["schedule"], case["focus"])
    try:
        sched.spawn([calls(n) for n in range(len(pools))])
    except (Violation, HarnessError):
        raise
    except Exception as exc:
        raise Violation(f"a concurrent call fails: {type(exc).__name__}: {exc}") from exc
    for k, v in world().items():
        expect_eq(v, around[k], f"concurrent calls changed the {k}")
    for p, b in zip(pools, before, strict=True):
        for k, v in p.items():
            expect_eq(snap(v), b[k], f"concurrent calls changed their caller's {k!r}")
    # the same calls, one after another
    reset_library(ctx)
    c05.put_config(ctx, case["config"])
    for n, ops in enumerate(case["threads"]):
        pool = fresh()
        for (op, i, j), g in zip(ops, got[n], strict=True):
            expect_eq(g, answer(pool, op, i, j), f"{op} called concurrently, against the same call alone",
                      thread=n, switches=sched.switches)
    kinds = {(op, i, j) for ops in case["threads"] for op, i, j in ops}
    ctx.label(f"threads={len(pools)}", "shared" if case["shared"] else "separate", *(["free"] if sched.free else []), "focus" if sched.focus is not None else "all-lines",
              "switches>=10" if sched.switches >= 10 else "switches<10")
    ctx.nontrivial(sched.switches >= 3 and any(g[0] == "ok" for x in got for g in x) and len(kinds) >= 1)


CHECKS = [
    Check("threads", lambda: case_threads(case_history(), 1500), check, 2400, 60000,
          "calls of the library from two or three threads over shared or separate objects, of which one runs at a time, "
          "changing over after generated numbers of lines of library code; non-trivial with three or more changes"),
    Check("plugin-threads", lambda: case_threads(case_plugin_history(), 400), check, 300, 6000,
          "the same with providers that are real plugins and caches that are empty at first; non-trivial as above"),
]
