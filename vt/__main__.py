"""Command line of the harness (see ../run)."""
from __future__ import annotations

import argparse
import collections
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vt import core, known

NSHARDS = 8


def scratch_root() -> str | None:
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK) and shutil.disk_usage(d).free > 1 << 30:
            return d
    return None


def worker_env() -> dict[str, str]:
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


def run_workers(pid, tier, seed, base, shards):
    """Run the shards; stop the others once one has reported a failure."""
    procs, reports = {}, {}
    for k in shards:
        out = base / f"report{k}.json"
        log = open(base / f"log{k}.txt", "wb")
        procs[k] = (subprocess.Popen(
            [sys.executable, "-m", "vt.worker", pid, tier, str(seed), str(k), str(NSHARDS),
             str(base), str(out)],
            cwd=core.VERIF, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
            env=worker_env(), start_new_session=True), out, log)
    try:
        deadline = None
        while procs:
            for k, (p, out, log) in list(procs.items()):
                if p.poll() is None:
                    continue
                log.close()
                del procs[k]
                if out.exists():
                    reports[k] = json.loads(out.read_text())
                else:
                    text = (base / f"log{k}.txt").read_text(errors="replace")
                    reports[k] = {"shard": k, "error": f"worker exited {p.returncode}: {text[-3000:]}",
                                  "failure": None}
                if reports[k].get("failure") or reports[k].get("error"):
                    deadline = min(deadline or 1e18, time.monotonic() + 3)
            if deadline and time.monotonic() > deadline:
                break
            time.sleep(0.05)
    finally:
        for p, _out, log in procs.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            log.close()
    return reports


def replay_in_fresh_process(path: pathlib.Path) -> tuple[bool, str]:
    r = subprocess.run([sys.executable, "-m", "vt", "replay", str(path), "--quiet"],
                       cwd=core.VERIF, env=worker_env(), stdin=subprocess.DEVNULL,
                       capture_output=True, timeout=300)
    return r.returncode == 1, (r.stdout + r.stderr).decode(errors="replace")


def cmd_check(args) -> int:
    pid, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    base = pathlib.Path(tempfile.mkdtemp(prefix=f"vt-{pid}-", dir=scratch_root()))
    replays = pathlib.Path(os.environ.get("VT_REPLAY_DIR", core.VERIF / "evidence" / "replay"))
    try:
        mod = core.get_property(pid)
        reports = run_workers(pid, tier, seed, base, range(NSHARDS))
        errors = [r["error"] for r in reports.values() if r.get("error")]
        failures = [r for r in reports.values() if r.get("failure")]
        confirmed = None
        for r in sorted(failures, key=lambda r: r["failure"]["size"]):
            f = r["failure"]
            replays.mkdir(parents=True, exist_ok=True)
            path = replays / f"{pid}-{f['check']}.json"
            path.write_text(json.dumps({"property": pid, "check": f["check"], "case": f["case"],
                                        "message": f["message"]}, indent=1))
            ok, text = replay_in_fresh_process(path)
            if ok:
                confirmed = (path, f)
                break
            # depends on what ran before: re-run the whole shard from scratch
            b2 = pathlib.Path(tempfile.mkdtemp(prefix=f"vt-{pid}-", dir=scratch_root()))
            try:
                again = run_workers(pid, tier, seed, b2, [r["shard"]])
            finally:
                shutil.rmtree(b2, ignore_errors=True)
            f2 = again.get(r["shard"], {}).get("failure")
            if f2:
                path.write_text(json.dumps(
                    {"property": pid, "check": f2["check"], "case": f2["case"],
                     "message": f2["message"], "shard": r["shard"], "tier": tier, "seed": seed},
                    indent=1))
                confirmed = (path, f2)
                break
            errors.append(f"failure did not reproduce: {f['message']}\n{text[-2000:]}")
        write_evidence(mod, pid, tier, seed, reports, time.monotonic() - t0, bool(confirmed))
        if confirmed:
            path, f = confirmed
            print(f["message"][:3000])
            print(f"check: {f['check']}  case: {json.dumps(f['case'])[:3000]}")
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        if errors:
            print("harness error:", errors[0], file=sys.stderr)
            return 2
        hits = collections.Counter(k for r in reports.values() for k in r.get("known", []))
        for (p, key), what in known.load().items():
            if p == pid and key in hits:
                print(f"KNOWN-FINDING: property={pid} {what}")
        ev = sum(r["evaluations"] for r in reports.values())
        print(f"{pid}: held on {ev} cases ({time.monotonic() - t0:.1f} s)")
        return 0
    finally:
        core.make_writable(base)
        shutil.rmtree(base, ignore_errors=True)


def write_evidence(mod, pid, tier, seed, reports, wall, violated) -> None:
    labels: collections.Counter = collections.Counter()
    per_check: dict = {}
    nontrivial: set = set()
    samples: list = []
    ev = disc = 0
    for r in reports.values():
        ev += r.get("evaluations", 0)
        disc += r.get("discarded", 0)
        labels.update(r.get("labels", {}))
        nontrivial.update(r.get("nontrivial", []))
        for s in r.get("samples", []):
            if sum(x["check"] == s["check"] for x in samples) < 2:
                samples.append(s)
        for name, d in r.get("per_check", {}).items():
            e = per_check.setdefault(name, {"evaluations": 0, "cpu_s": 0})
            e["evaluations"] += d["evaluations"]
            e["cpu_s"] = round(e["cpu_s"] + d["s"], 1)
    rule = getattr(mod, "RULE", "") + " Sub-checks: " + "; ".join(
        f"{c.name}: {c.rule}" for c in mod.CHECKS)
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(nontrivial), "rule": rule.strip(),
            "samples": samples[:12], "discarded": disc,
            "classes": dict(sorted(labels.items())), "per_check": per_check,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": int(violated),
    }
    out = core.VERIF / "evidence" / f"{pid}.json"
    out.parent.mkdir(exist_ok=True)
    out.write_text(json.dumps(doc, indent=1))


def cmd_replay(args) -> int:
    data = json.loads(pathlib.Path(args.file).read_text())
    base = pathlib.Path(tempfile.mkdtemp(prefix="vt-replay-", dir=scratch_root()))
    try:
        if "shard" in data:
            reports = run_workers(data["property"], data["tier"], data["seed"], base, [data["shard"]])
            f = reports[data["shard"]].get("failure")
            print(f["message"] if f else "holds")
            return 1 if f else 0
        core.isolate_process(base)
        ctx = core.Ctx(base)
        ctx.shard, ctx.tier = 0, "quick"
        core.load_library()
        mod = core.get_property(data["property"])
        check = next(c for c in mod.CHECKS if c.name == data["check"])
        try:
            core.run_case(check, data["case"], ctx)
        except core.Violation as exc:
            print(exc)
            if not args.quiet:
                print(f"VIOLATION property={data['property']} replay={args.file}")
            return 1
        except core.Skip:
            print("skipped")
            return 0
        print("holds")
        return 0
    finally:
        os.chdir("/")
        core.make_writable(base)
        shutil.rmtree(base, ignore_errors=True)


def cmd_setup(_args) -> int:
    core.load_library()
    import hypothesis  # noqa: F401

    print("variantlib", sys.modules["variantlib"].__file__, "hypothesis", hypothesis.__version__)
    return 0


def main() -> int:
    ap = argparse.ArgumentParser(prog="run")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                   choices=["quick", "thorough"])
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--quiet", action="store_true")
    sub.add_parser("setup")
    args = ap.parse_args()
    try:
        return {"check": cmd_check, "replay": cmd_replay, "setup": cmd_setup}[args.cmd](args)
    except core.HarnessError as exc:
        print("harness error:", exc, file=sys.stderr)
        return 2
    except Exception:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
