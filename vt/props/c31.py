"""C31: index and project files are replaced completely or not at all."""
import json
import os
import pathlib
import resource
import signal
import stat
import sys
import tomllib

from hypothesis import strategies as st

from vt import docs, gen, plugs, wheels
from vt.core import Check, HarnessError, expect, expect_eq
from vt.lib import cli
from vt.props.c19 import WHEEL
from vt.props.c25 import add_plugins, site_with_commands
from vt.props.c30 import DI, wheel_files

FAULTS = ["limit-error", "limit-kill", "kill", "kill", "error", "error", "interrupt", "refused"]
REFUSALS = {"add": ["exists", "damaged", "other-info", "bad-index", "no-metadata"],
            "update": ["not-installed", "bad-toml", "wrong-type"],
            "generate": ["junk"]}
KILLED = 97


@st.composite
def case(draw):
    uni = draw(gen.universe(2, 2, 3))
    doc = draw(docs.info(uni, "project", ("aot",)))
    cmd = draw(st.sampled_from(["generate", "add", "add", "update", "update"]))
    ws, bases = {}, []
    for _ in range(draw(st.integers(1, 2)) if cmd == "generate" else 1):
        base, w = draw(wheel_files(doc, uni, draw(st.integers(1, 3))))
        if all(b.split("-")[:2] != base.split("-")[:2] for b in bases):
            bases.append(base)
            ws.update({k: [v, label, "fine"] for k, (v, label, _what) in w.items()})
    names = draw(gen.exact(gen.ns_token(), 1, 3))
    specs = []
    if cmd == "update":
        for ns in names:
            specs.append(draw(plugs.behaviour(ns, next(iter(draw(gen.universe(1, 2, 3)).values()))).filter(lambda b: b["sup"])))
    fault = draw(st.sampled_from(FAULTS))
    pool = sorted({*doc["providers"], *names})
    return {"doc": doc, "cmd": cmd, "wheels": ws, "specs": specs, "fault": fault,
            "refusal": draw(st.sampled_from(REFUSALS[cmd])), "at": draw(st.integers(0, 999)),
            "old": draw(st.sampled_from(["absent", "short", "long", "long", "junk"])),
            "mode": draw(st.sampled_from([0o644, 0o644, 0o600, 0o664, 0o755])),
            "link": draw(st.sampled_from([None, None, None, "real", "rel"])),
            "inplace": draw(st.booleans()), "pick": draw(st.integers(0, 5)),
            "edits": draw(st.lists(st.tuples(st.booleans(), st.sampled_from(pool)).map(list), min_size=1, max_size=3)),
            "names": names, "pad": draw(st.sampled_from([0, 0, 3, 400])), "crlf": draw(st.booleans()),
            "relative": draw(st.booleans())}


def namever(name):
    return "-".join(name.split("-")[:2])


def put(w, rel, data, case):
    """Create the file that the command is to replace, possibly behind a symbolic link."""
    p = w / rel
    if case["link"]:
        real = (w / "real" if case["link"] == "real" else p.parent) / f"target-of-{p.name}.txt"
        real.parent.mkdir(exist_ok=True)
        real.write_bytes(data)
        p.symlink_to(os.path.relpath(real, p.parent) if case["link"] == "rel" else real)
    else:
        p.write_bytes(data)
    os.chmod(p, case["mode"])


def populate(w, case):
    """Create the working directory; returns arguments."""
    for sub in ("in", "out"):
        (w / sub).mkdir(parents=True)
    doc, cmd = case["doc"], case["cmd"]
    full = {**doc, "variants": {}}
    refusal = case["refusal"] if case["fault"] == "refused" else None
    for name, (v, label, _) in case["wheels"].items():
        members = list(WHEEL["members"])
        text = json.dumps({**full, "variants": {label: docs.nested(v)}})
        if refusal != "no-metadata":
            members.append({"name": f"{DI}/variant.json", "data": text.encode().hex()})
        wheels.write(w / "in" / name, {**WHEEL, "members": members})
    names = sorted(case["wheels"])
    pick = names[case["pick"] % len(names)]
    old = {"absent": None, "short": b"{}\n", "long": b'{"old": "' + b"x" * 20000 + b'"}', "junk": b"\xff\x00 not JSON"}[case["old"]]
    here = pathlib.Path() if case["relative"] else w
    if cmd == "generate":
        if old is not None:
            for nv in {namever(n) for n in names}:
                put(w, f"in/{nv}-variants.json", old, case)
        return ["-d", here / "in"] + (["junk"] if refusal else [])
    if cmd == "add":
        index = f"out/{namever(pick)}-variants.json"
        src = w / "in" / pick
        if refusal == "damaged":
            src.write_bytes(src.read_bytes()[:-30])
        args = ["-f", here / "in" / pick, "-o", here / "out"] + ([] if refusal == "exists" else ["-w"])
        v, label, _ = case["wheels"][names[case["pick"] // 2 % len(names)]]
        index_doc = {**doc, "variants": {label: docs.nested(v)}}
        if refusal == "other-info":
            index_doc["default-priorities"] = {"namespace": ["zz_other", *doc["default-priorities"]["namespace"]]}
            index_doc["providers"] = {**doc["providers"], "zz_other": {"requires": ["x"], "plugin-api": "m:C"}}
        text = json.dumps(index_doc, indent=[None, 40][case["pad"] > 3]).encode()
        if refusal == "bad-index":
            text = text[:-3]
        if case["inplace"] or refusal in ("exists", "other-info", "bad-index"):
            put(w, index, text, case)
            args += ["-i", here / index]
        else:
            if old is not None:
                put(w, index, old, case)
            (w / "in" / "index.json").write_bytes(text)
            args += ["-i", here / "in" / "index.json"]
        return args
    text = f"# the project {'é' * 50 * case['pad']}\n" + docs.toml({"project": {"name": "x"}, "variant": doc}) + "".join(
        f"\n[tool.t{i}]\nkey = {i} # why\n" for i in range(case["pad"] % 10))
    if refusal == "bad-toml":
        text += "= [\n"
    if refusal == "wrong-type":
        text = "variant = 1\n"
    if case["crlf"]:
        text = text.replace("\n", "\r\n")
    put(w, "pyproject.toml", text.encode(), case)
    args = ["-f", here / "pyproject.toml"] if case["pick"] % 2 or not case["relative"] else []
    for add, ns in case["edits"]:
        if not add or ns in case["names"]:
            args += ["-a" if add else "-d", ns]
    if refusal == "not-installed" or refusal == "wrong-type" or not {"-a", "-d"} & set(args):
        args += ["-a", "not_installed_ns"]
    return args


def snapshot(w):
    out = {}
    for root, dirs, files in os.walk(w):
        for n in dirs + files:
            p = pathlib.Path(root, n)
            rel = str(p.relative_to(w))
            s = p.lstat()
            if stat.S_ISLNK(s.st_mode):
                t = os.readlink(p)
                out[rel] = ["link", os.path.relpath(t, w) if os.path.isabs(t) else t]
            elif stat.S_ISDIR(s.st_mode):
                out[rel] = ["dir"]
            else:
                out[rel] = ["file", oct(s.st_mode & 0o7777), p.read_bytes()]
    return out


# -- steps of the command, as seen by the interpreter -------------------------------------------------------------
STEPS = {"open", "os.rename", "os.remove", "os.chmod", "os.truncate", "os.link", "os.symlink", "os.mkdir"}
_watch: dict = {"on": False}
_installed = False


def _hook(event, args):
    if not _watch["on"] or event not in STEPS:
        return
    w = _watch
    paths = [os.fsdecode(a) for a in args[:2] if isinstance(a, (str, bytes, os.PathLike))]
    if not any(os.path.abspath(p).startswith(w["dir"]) for p in paths):
        return
    writes = event in ("os.rename", "os.remove", "os.truncate", "os.link", "os.symlink", "os.mkdir") or (
        event == "open" and bool(args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)))
    if w["writes"] and not writes:
        return
    w["count"] += 1
    if w["stop"] is not None and w["count"] == w["stop"]:
        w["stop"] = None
        w["act"]()


def watched(directory, fn, writes=False, stop=None, act=None):
    """Run fn(), counting its steps in the directory; at step `stop`, act."""
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    _watch.update(on=True, dir=str(directory) + os.sep, count=0, writes=writes, stop=stop, act=act)
    try:
        return fn(), _watch["count"]
    finally:
        _watch["on"] = False


class Interrupt(KeyboardInterrupt):
    pass


def child(fn, setup):
    """Run fn() (a success flag) in a forked child; 'ok', 'failed' or 'killed'."""
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            signal.alarm(0)
            setup()
            code = 0 if fn() else 1
        except BaseException:
            code = 98
        finally:
            os._exit(code)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if code in (KILLED, -signal.SIGXFSZ):
        return "killed"
    if code not in (0, 1):
        raise HarnessError(f"child ended with {code}")
    return "failed" if code else "ok"


def check(case, ctx):
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json
    from variantlib.commands.generate_index_json import generate_index_json
    from variantlib.commands.update_pyproject_toml import update_pyproject_toml

    cmd, fault = case["cmd"], case["fault"]
    fn = {"generate": generate_index_json, "add": add_wheel_to_index_json, "update": update_pyproject_toml}[cmd]
    if cmd == "update":
        site = site_with_commands(ctx)
        for s in case["specs"]:
            s["dist"] = 0
        add_plugins(ctx, site, case["specs"])
    ref, w = ctx.dir / "ref", ctx.dir / "w"
    args = populate(w, case)
    start = snapshot(w)
    ctx.label(cmd, f"{cmd}-{fault}")
    if fault == "refused":
        ctx.chdir(w)
        r = cli(fn, args)
        failed = not r.ok
        if cmd == "generate" or case["refusal"] != "wrong-type":
            expect(failed, "a command that cannot do its work reports success", refusal=case["refusal"], r=r)
        if failed:
            expect_eq(snapshot(w), start, f"files after a refused {cmd}", refusal=case["refusal"], r=r)
        ctx.label("refused-" + case["refusal"])
        ctx.nontrivial(failed)
        return
    # what the undisturbed command does
    ref_args = populate(ref, case)
    expect_eq(snapshot(ref), start, "harness: files")
    ctx.chdir(ref)
    writes = fault == "error"
    r, steps = watched(ref, lambda: cli(fn, ref_args), writes)
    ctx.label("sound" if r.ok else "not-sound")
    final = snapshot(ref)
    if not r.ok:
        expect_eq(final, start, f"files after a failed {cmd}", r=r)
    changed = [k for k in final if final[k] != start.get(k)]
    expect(not set(start) - set(final), "a command removes files", gone=sorted(set(start) - set(final)))
    for k in changed:
        expect(final[k][0] == "file", "files that are not regular are changed", path=k, was=start.get(k), now=final[k])
        if k in start:
            expect(start[k][0] == "file", "a link is replaced by a file", path=k, was=start[k])
            expect_eq(final[k][1], start[k][1], "permissions of a replaced file", path=k)
        if cmd == "update":
            tomllib.loads(final[k][2].decode())
        else:
            expect("variants" in json.loads(final[k][2]), "not an index", path=k)
    sizes = [len(final[k][2]) for k in changed]
    ctx.chdir(w)
    run = lambda: cli(fn, args).ok  # noqa: E731
    if fault.startswith("limit"):
        limit = max(sizes, default=0) * case["at"] // 1000

        def setup():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fault == "limit-kill":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))

        end = child(run, setup)
        info = {"limit": limit}
    else:
        stop = case["at"] * steps // 1000 + 1 if steps else None
        info = {"step": stop, "of": steps}

        def act():
            if fault == "kill":
                os._exit(KILLED)
            raise Interrupt if fault == "interrupt" else OSError(5, "injected I/O error")

        def attempt():
            try:
                return watched(w, run, writes, stop, act)[0]
            except Interrupt:
                return False

        if fault == "kill":
            end = child(attempt, lambda: None)
        else:
            end = "ok" if attempt() else "failed"
    after = snapshot(w)
    ctx.label(f"{fault}-{end}")
    ctx.nontrivial(end != "ok" and bool(changed))
    info.update(fault=fault, end=end)
    if end == "ok":
        expect_eq(after, final, "files after a command that succeeds", **info)
        return
    for k in {**start, **final}:
        if after.get(k) != start.get(k):
            expect_eq(after.get(k), final.get(k), f"{k} is neither as it was nor complete", was=start.get(k), **info)
    if end == "failed":
        expect_eq(sorted(set(after) - set(start) - set(final)), [], "files left behind", **info)


CHECKS = [
    Check("interrupted", case, check, 4000, 100000,
          "generate-index-json, add-wheel-to-index-json and update-pyproject-toml with existing, linked and absent files, "
          "disturbed by write limits (as errors and as kills), by errors and interrupts and kills at any step they take in "
          "the directory, or refused; non-trivial when the command did not finish and had something to write"),
]
