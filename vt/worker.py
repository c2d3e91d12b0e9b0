"""Runs one shard of a property's checks and writes a JSON report."""
from __future__ import annotations

import hashlib
import json
import os
import pathlib
import sys
import time
import traceback

from vt import core
from vt.core import HarnessError, Skip, Violation


def shard_seed(seed: int, pid: str, check: str, shard: int) -> int:
    h = hashlib.sha256(f"{seed}:{pid}:{check}:{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


class Stats:
    def __init__(self) -> None:
        self.evaluations = 0
        self.discarded = 0
        self.nontrivial: set[bytes] = set()
        self.labels: dict[str, int] = {}
        self.samples: list = []
        self.largest = (0, None)

    def note(self, check, case, blob, ctx) -> None:
        self.evaluations += 1
        for name in ctx.labels:
            self.labels[name] = self.labels.get(name, 0) + 1
        if ctx.is_nontrivial:
            d = hashlib.sha256(check.name.encode() + blob).digest()[:12]
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                n = len(self.nontrivial)
                if (n in (2, 20, 100) or n % 997 == 0) and len(blob) < 3000:
                    self.samples.append({"check": check.name, "case": case})


_mutator = None


def calm_mutator(eng, p: float) -> None:
    """Hypothesis spends most examples on variations of earlier ones; keep only a few of these,
    so that the classes of cases are visited as often as the generators say."""
    global _mutator
    if _mutator is None:
        _mutator = eng.ConjectureRunner.generate_mutations_from

    def some(self, data):
        if self.random.random() < p:
            _mutator(self, data)

    eng.ConjectureRunner.generate_mutations_from = some


def run_check(pid, check, n, seed, ctx, stats: Stats, budget: float):
    """Returns None or a failure dict."""
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 40
    calm_mutator(eng, 0.08 if n >= 400 else 0.0)
    best: dict = {}
    t0 = time.monotonic()
    harness: list[str] = []

    def one(raw):
        if harness:
            return
        if not best and time.monotonic() - t0 > budget:
            stats.labels["time-budget-hit"] = stats.labels.get("time-budget-hit", 0) + 1
            return
        blob = json.dumps(raw, sort_keys=True).encode()
        case = json.loads(json.dumps(raw))
        try:
            core.run_case(check, case, ctx)
        except Skip:
            stats.discarded += 1
            return
        except HarnessError:
            harness.append(traceback.format_exc())
            return
        except Violation as exc:
            if not best or len(blob) < best["size"]:
                best.update(size=len(blob), case=case, message=str(exc)[:6000], check=check.name)
            raise
        stats.note(check, case, blob, ctx)

    for case in (check.fixed or []) if ctx.shard == 0 else []:
        try:
            one(case)
        except Violation:
            return best, None
    if harness:
        return None, harness[0]
    if n <= 0:
        return None, None

    return search(check, one, n, seed, best, harness)


def search(check, one, n, seed, best, harness, attempts=3):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    test = hypothesis.given(check.strategy())(one)
    test = settings(
        max_examples=n, database=None, deadline=None,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), print_blob=False,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except BaseException as exc:  # noqa: BLE001
        if isinstance(exc, KeyboardInterrupt):
            raise
        if harness:
            return None, harness[0]
        if best:
            return best, None
        if isinstance(exc, hypothesis.errors.Flaky) and attempts > 1:
            # a generator that is not repeatable: nothing about the code under test
            return search(check, one, n, seed + 1, best, harness, attempts - 1)
        return None, f"{type(exc).__name__}: {exc}\n{traceback.format_exc()}"
    if harness:
        return None, harness[0]
    return (best or None), None


def main(argv: list[str]) -> int:
    pid, tier, seed, shard, nshards, base, out = argv
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    only = os.environ.get("VT_ONLY")
    scale = float(os.environ.get("VT_SCALE", "1"))
    report: dict = {"shard": shard, "failure": None, "error": None}
    stats = Stats()
    t0 = time.monotonic()
    per_check: dict = {}
    try:
        basep = pathlib.Path(base) / f"w{shard}"
        basep.mkdir(parents=True)
        core.isolate_process(basep)
        ctx = core.Ctx(basep)
        ctx.shard = shard
        ctx.tier = tier
        core.load_library()
        mod = core.get_property(pid)
        for i, check in enumerate(mod.CHECKS):
            if only and check.name not in only.split(","):
                continue
            total = int((check.quick if tier == "quick" else check.thorough) * scale)
            use = min(check.shards, nshards)
            # rotate, so that checks using few shards do not all pile up on the first ones
            pos = (shard - 3 * i) % nshards
            n = 0
            if pos < use:
                n = total // use + (1 if pos < total % use else 0)
            if n == 0 and not (shard == 0 and check.fixed):
                continue
            budget = check.max_s if tier == "quick" else max(check.max_s, 1500.0)
            before, t1 = stats.evaluations, time.monotonic()
            failure, error = run_check(
                pid, check, n, shard_seed(seed, pid, check.name, shard), ctx, stats, budget)
            per_check[check.name] = {
                "evaluations": stats.evaluations - before,
                "s": round(time.monotonic() - t1, 2)}
            if error:
                report["error"] = f"check {check.name}: {error}"
                break
            if failure:
                report["failure"] = failure
                break
        report["known"] = sorted(set(ctx.known))
    except BaseException as exc:  # noqa: BLE001
        report["error"] = f"{type(exc).__name__}: {exc}\n{traceback.format_exc()}"
    report.update(
        evaluations=stats.evaluations, discarded=stats.discarded,
        nontrivial=[d.hex() for d in stats.nontrivial], labels=stats.labels,
        samples=stats.samples[:6], per_check=per_check, wall_s=time.monotonic() - t0)
    tmp = pathlib.Path(out + ".tmp")
    tmp.write_text(json.dumps(report))
    tmp.replace(out)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
