"""C14: a failing wheel command destroys nothing and leaves no broken wheel."""
import copy
import os
import pathlib
import resource
import signal
import subprocess
import sys
import zipfile

from hypothesis import strategies as st

from vt import docmodel, docs, gen, model, plugs, wheels
from vt.core import Check, HarnessError, Skip, expect, expect_eq
from vt.lib import cli, fake_isolation
from vt.props.c09 import mutate
from vt.props.c13 import expected_label, make_args, request, split
from vt.props.c31 import KILLED, child, put, snapshot, watched

ARG_FAULTS = ["bad-label", "null-label", "label-with-null", "no-property", "both", "bad-property", "no-project",
              "project-is-dir", "bad-toml", "bad-project", "no-wheel", "wheel-is-dir", "no-out", "out-is-file", "bad-name",
              "unknown-option", "bad-installer", "no-file-arg"]
REJECT_FAULTS = ["invalid-property", "unknown-namespace", "multi-value", "rejected-isolated", "install-fails"]
WHEEL_FAULTS = ["bad-crc", "truncated", "not-zip", "empty", "bad-method", "record-bytes", "encrypted", "truncated-tail",
                "damaged-data"]
IO_FAULTS = ["full", "full", "full", "read-error", "write-error", "interrupt", "target-is-dir"]
PLUGIN_FAULTS = ["plugin-raises", "plugin-missing", "plugin-exits", "plugin-not-fixed", "plugin-unsupported"]


@st.composite
def case(draw):
    uni = draw(gen.universe(2, 2, 3))
    doc = draw(docs.info(uni, "project", ("aot",)))
    pool = gen.all_props(uni)
    cmd = draw(st.sampled_from(["make", "make", "unmake"]))
    _namever, base = draw(wheels.base_name())
    spec = draw(wheels.wheel("pkg-1.0.dist-info", draw(st.sampled_from([None, "{}", "old"])), simple=draw(st.booleans())))
    req = draw(request(doc, pool))
    group = draw(st.sampled_from(["arg", "reject", "wheel", "wheel", "io", "io"] + (["plugin"] if draw(st.integers(0, 3)) == 0
                                                                              else [])))
    if cmd == "unmake" and group in ("reject", "plugin"):
        group = "wheel"
    fault = draw(st.sampled_from({"arg": ARG_FAULTS, "reject": REJECT_FAULTS, "wheel": WHEEL_FAULTS, "io": IO_FAULTS,
                                  "plugin": PLUGIN_FAULTS}[group]))
    old = draw(docs.label_text()) if cmd == "unmake" or draw(st.integers(0, 2)) == 0 else None
    c = {"doc": doc, "cmd": cmd, "base": base, "spec": spec, "req": req, "fault": fault, "old": old,
         "target": draw(st.sampled_from(["absent", "absent", "stale", "same-file"])), "n": draw(st.integers(0, 40)),
         "where": draw(st.integers(0, 1000)), "mode": draw(st.sampled_from([0o644, 0o444, 0o600]))}
    if fault == "bad-project":
        bad = copy.deepcopy({"default-priorities": doc["default-priorities"], **doc})
        draw(mutate(bad, "project"))
        c["bad"] = bad
    if fault == "bad-label":
        c["text"] = draw(st.one_of(gen.bad_token(True).filter(lambda x: not x.startswith("-") and "\x00" not in x),
                                   st.sampled_from(["x" * 17, "X", "a-b", "", "a b", "a\n"])))
    if fault == "bad-property":
        c["text"] = draw(st.sampled_from(["a", "a::b", "a :: b :: ", "A :: b :: c", "a :: b :: c d", "a :: b :: c\n",
                                          "a :: b :: c :: d", "", "a b :: c :: d", "a:b:c", "a :: b-c :: d", ":: :: "]))
    if group == "plugin":
        ns = draw(st.sampled_from(sorted(uni)))
        b = draw(plugs.behaviour(ns, uni[ns], single=True).filter(lambda b: b["sup"]))
        c["plug"] = [ns, {**b, "aot": True}]
    return c


def damage(path, fault, spec, n):
    """Damage the wheel so that it cannot be copied."""
    data = bytearray(path.read_bytes())
    if fault == "not-zip":
        path.write_bytes(b"not a wheel at all" * 4)
        return
    if fault == "empty":
        path.write_bytes(b"")
        return
    if fault == "truncated":
        path.write_bytes(data[:len(data) * (n % 9 + 1) // 12])
        return
    if fault == "truncated-tail":
        path.write_bytes(data[:-(n % 20 + 1)])
        return
    with zipfile.ZipFile(path) as z:
        infos = [zi for zi in z.infolist() if not zi.filename.endswith("/")
                 and zi.filename != f"{spec['di']}/variant.json"]
        zi = infos[n % len(infos)]
        central = [z.start_dir]
        for x in z.infolist():
            central.append(central[-1] + 46 + len(x.orig_filename.encode()) + len(x.extra) + len(x.comment))
        pos = central[z.infolist().index(zi)]
    if data[pos:pos + 4] != b"PK\x01\x02":
        raise HarnessError("central directory entry not found")
    if fault in ("bad-crc", "damaged-data"):
        data[pos + 16] ^= 0xff                       # the recorded checksum
        if fault == "damaged-data" and zi.compress_size > 2:
            start = zi.header_offset + 30 + int.from_bytes(data[zi.header_offset + 26:zi.header_offset + 28], "little") \
                + int.from_bytes(data[zi.header_offset + 28:zi.header_offset + 30], "little")
            data[start + zi.compress_size // 2] ^= 0x41
    elif fault == "bad-method":
        data[pos + 10:pos + 12] = b"\x63\x00"
    elif fault == "encrypted":
        data[pos + 8] |= 1
        data[zi.header_offset + 6] |= 1
    path.write_bytes(data)


def in_child(fn, args, limit):
    """Run a command in a forked child that cannot write files larger than `limit`."""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.alarm(0)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            code = 0 if cli(fn, args).ok else 1
        except BaseException:
            code = 98
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code not in (0, 1):
        raise HarnessError(f"child ended with {code}")
    return code == 0


class Interrupt(KeyboardInterrupt):
    pass


def check(case, ctx):
    from variantlib.commands.make_variant import make_variant
    from variantlib.commands.unmake_variant import unmake_variant

    ctx.sys_path([])
    cmd, fault, spec, req, doc, n = (case[k] for k in ("cmd", "fault", "spec", "req", "doc", "n"))
    fn = make_variant if cmd == "make" else unmake_variant
    base = case["base"]
    if fault == "truncated-tail":
        spec["comment"] = ""
    ind, out = ctx.mkdir("in"), ctx.mkdir("out")
    if fault == "bad-name":
        base = ["pkg-1.0", "pkg", "a b-1.0-py3-none-any", "pkg-1.0-py3-none-any-a-b-c-d", "pkg-1.0-py3-none-any-UPPER",
                "pkg-1.0-py3-none-any-" + "x" * 17][n % 6]
    src = ind / (base + (f"-{case['old']}" if case["old"] is not None and fault != "bad-name" else "") + ".whl")
    proj = ctx.dir / "pyproject.toml"
    plug = case.get("plug")
    if plug:
        ns, b = plug
        p = doc["providers"][ns]
        p.pop("enable-if", None)
        p.pop("optional", None)
        p["requires"] = ["x"]
        doc.get("static-properties", {}).pop(ns, None)
        if fault == "plugin-not-fixed":
            b["aot"] = False
        if fault == "plugin-unsupported":
            b["all"][0][1].append("only.all")
            b["sup"] = [[f, [v for v in vs if v != "only.all"], m] for f, vs, m in b["sup"]]
        pd = ctx.mkdir("plugins")
        p["plugin-api"] = plugs.write(pd, "vtplug0", b)
        bad = {"plugin-raises": "raise RuntimeError('no')\n", "plugin-exits": "import sys; sys.exit(3)\n"}.get(fault)
        if bad:
            mod = pd / "vtplug0.py"
            mod = mod if mod.exists() else pd / "vtplug0" / "sub.py"
            if n % 2:
                mod.write_text(bad + mod.read_text())
            else:
                mod.write_text(mod.read_text().replace('_note("supported")', bad.strip()))
        if fault == "plugin-missing":
            p["plugin-api"] = "vtplug_missing:X"
        ctx.setenv("PYTHONPATH", str(pd))
        f, vs, _m = b["sup"][0]
        req.update(kind="valid", props=[[ns, f, vs[0]]], label=None)
        if fault == "plugin-unsupported":
            req["props"] = [[ns, b["all"][0][0], "only.all"]]
            if n % 2:
                req["kind"] = "skip"
    if fault == "record-bytes":
        spec = {**spec, "members": [*spec["members"]]}
    wheels.write(src, spec)
    if fault == "record-bytes":
        # RECORD that is not text: written as an ordinary member, the sound RECORD removed
        members = wheels.read(src)
        with zipfile.ZipFile(src, "w") as z:
            for name, data, _a in members:
                z.writestr(name, b"\xff\xfe,x,y\n" + data if name == f"{spec['di']}/RECORD" else data)
    elif fault in WHEEL_FAULTS:
        damage(src, fault, spec, n)
    text = docs.toml({"project": {"name": "x"}, "variant": doc})
    proj.write_text(text)
    # the request
    if fault in ("bad-label", "null-label", "rejected-isolated", "invalid-property", "multi-value", "install-fails") \
            and not req["props"]:
        p0 = docs.static_supported(doc)[0]
        req.update(kind="valid", props=[p0], label=None)
    if fault in ("invalid-property", "rejected-isolated"):
        req["kind"] = "valid"
        p0 = req["props"][0]
        req["props"] = [q for q in req["props"] if q[:2] != p0[:2] and q[0] in doc["providers"]] + [[p0[0], p0[1], "not.listed_value"]]
    elif fault == "unknown-namespace":
        req["kind"] = "valid"
        req["props"] = [*[q for q in req["props"] if q in docs.static_supported(doc)], ["undeclared_ns", "f", "1"]]
    elif fault == "multi-value":
        req["kind"] = "valid"
        req["props"] = []
        for ns, fs in doc["static-properties"].items():
            for f, vs in fs.items():
                if len(vs) > 1:
                    req["props"] = [[ns, f, vs[0]], [ns, f, vs[1]]]
        if not req["props"]:
            raise Skip
    elif fault == "no-property":
        pass
    if cmd == "make":
        label = expected_label(req)
        name = f"{base}-{label}.whl"
    else:
        name = f"{base}.whl"
    if case["target"] == "same-file":
        # the output is written next to the input, maybe over it
        out = ind
        if cmd == "make" and case["old"] is not None and src.is_file() and n % 2:
            src = src.rename(ind / name)
    target = out / name
    if case["target"] == "stale" and target != src and fault != "bad-name":
        target.write_bytes(b"an older wheel")
        os.chmod(target, case["mode"])
    if fault == "target-is-dir":
        if target == src:
            raise Skip
        target.unlink(missing_ok=True)
        target.mkdir()
        (target / "x").write_text("y")
    args = make_args(req, src, out, proj) if cmd == "make" else ["-f", src, "-o", out]
    must_fail = True
    calls: list = []
    if fault == "rejected-isolated":
        args = [a for a in args if a not in ("--no-isolation", "--skip-plugin-validation")]
        fake_isolation(ctx, sys.executable, calls)
    if fault == "install-fails":
        req["kind"] = "valid"
        args = [a for a in make_args(req, src, out, proj) if a != "--no-isolation"]
        fake_isolation(ctx, sys.executable, calls, subprocess.CalledProcessError(1, ["pip"], b"", b"no network \xc3\xa9"))
    if fault in ("bad-label", "null-label", "label-with-null", "no-property", "both", "bad-property", "bad-installer",
                 "no-project", "project-is-dir", "bad-toml", "bad-project") and cmd == "unmake":
        must_fail = fault != "no-project"
        args += {"bad-label": ["--variant-label", case.get("text", "x")], "null-label": ["--variant-label", "null"],
                 "label-with-null": ["--null-variant"], "no-property": ["-p"], "both": ["-p", "a :: b :: c"],
                 "bad-property": ["--property", case.get("text", "x")], "bad-installer": ["--installer", "apt"],
                 "no-project": [], "project-is-dir": ["extra"], "bad-toml": ["--pyproject-toml", proj],
                 "bad-project": ["-x"]}[fault]
    elif fault == "bad-label":
        if model.is_label(case["text"]):
            raise Skip
        args = [a for a in make_args({**req, "label": None}, src, out, proj)] + ["--variant-label=" + case["text"]]
    elif fault == "null-label":
        args = make_args({**req, "label": "null"}, src, out, proj)
    elif fault == "label-with-null":
        args = make_args({"kind": "null", "props": [], "label": "x", "repeat": False}, src, out, proj)
    elif fault == "no-property":
        args = ["-f", src, "-o", out, "--pyproject-toml", proj, "--no-isolation"] + (["-p"] if n % 2 else [])
    elif fault == "both":
        args = make_args({"kind": "null", "props": [], "label": None, "repeat": False}, src, out, proj) + ["-p", "a :: b :: c"]
    elif fault == "bad-property":
        args = make_args({"kind": "skip", "props": [["a", "b", "c"]], "label": None, "repeat": False}, src, out, proj) \
            + ["-p", case["text"]]
    elif fault == "bad-installer":
        args += ["--installer", "apt"]
    elif fault == "no-project":
        proj.unlink()
    elif fault == "project-is-dir":
        proj.unlink()
        proj.mkdir()
    elif fault == "bad-toml":
        proj.write_text(text[:len(text) * (n + 1) // 60] + "\n= [")
    elif fault == "bad-project":
        if not docmodel.verdict(case["bad"], "project").startswith("bad") or "null" in repr(case["bad"]) or \
                "None" in repr(case["bad"]):
            raise Skip
        proj.write_text(docs.toml({"project": {"name": "x"}, "variant": case["bad"]}), encoding="utf-8")
    elif fault == "no-wheel":
        args[1] = src = ind / f"missing-{base}.whl"
    elif fault == "wheel-is-dir":
        args[1] = ind
    elif fault == "no-out":
        args[3] = ctx.dir / "nonexistent"
    elif fault == "out-is-file":
        args[3] = src
    elif fault == "unknown-option":
        args.append("--frobnicate")
    elif fault == "no-file-arg":
        args = args[2:]
    before = wheels.tree(ctx.dir)
    interrupted = False
    if fault == "full":
        # no write beyond a random number of bytes
        limit = max(src.stat().st_size, 1) * case["where"] // 1000
        ok = in_child(fn, args, limit)
        must_fail = limit < 22               # not even an empty archive fits
    elif fault in ("read-error", "write-error", "interrupt"):
        count = [0]
        cls, meth = (zipfile.ZipExtFile, "read") if fault == "read-error" or (fault == "interrupt" and n % 2) \
            else (zipfile._ZipWriteFile, "write")
        real = getattr(cls, meth)

        def failing(self, *a, **k):
            count[0] += 1
            if count[0] > n // 2 % 12:
                raise Interrupt if fault == "interrupt" else OSError(5, "injected I/O error")
            return real(self, *a, **k)

        ctx.setattr(cls, meth, failing)
        try:
            ok = cli(fn, args).ok
        except Interrupt:
            ok, interrupted = False, True
        setattr(cls, meth, real)
        must_fail = count[0] > n // 2 % 12
    else:
        r = cli(fn, args)
        ok = r.ok
    after = wheels.tree(ctx.dir)
    if fault == "bad-name" and cmd == "unmake" and n % 6 == 3:
        pass
    ctx.label(cmd, fault, "ok" if ok else "failed", f"target-{case['target']}", *(["interrupted"] if interrupted else []))
    ctx.nontrivial(not ok and (fault in IO_FAULTS or fault in WHEEL_FAULTS or fault in REJECT_FAULTS or bool(plug)
                               or case["target"] != "absent"))
    if ok:
        expect(not must_fail, "a command that cannot do its work reports success", fault=fault, args=args)
        key = str(target.relative_to(ctx.dir))
        expect_eq({k: v for k, v in after.items() if k != key}, {k: v for k, v in before.items() if k != key},
                  "files other than the output of a successful command")
        if cmd == "make" or case["old"] is not None:
            expect(key in after, "success without an output wheel", files=sorted(after))
            rest, _r, _m = split(wheels.read(target), spec["di"])
            expect_eq(sorted(x[0] for x in rest), sorted({*(m["name"] for m in spec["members"]), f"{spec['di']}/RECORD"}
                                                         - {f"{spec['di']}/variant.json"}), "members of the output")
    else:
        expect_eq(after, before, "files after a failed command", fault=fault, args=args)


# -- commands stopped at any step ---------------------------------------------------------------------------------
@st.composite
def stop_case(draw):
    uni = draw(gen.universe(2, 2, 2))
    doc = draw(docs.info(uni, "project", ("aot",)))
    cmd = draw(st.sampled_from(["make", "make", "unmake"]))
    _namever, base = draw(wheels.base_name())
    spec = draw(wheels.wheel("pkg-1.0.dist-info", draw(st.sampled_from([None, "{}", "old"])), simple=draw(st.booleans())))
    return {"doc": doc, "cmd": cmd, "base": base, "spec": spec, "req": draw(request(doc, gen.all_props(uni))),
            "old": draw(docs.label_text()) if cmd == "unmake" or draw(st.integers(0, 2)) == 0 else None,
            "over": draw(st.booleans()), "beside": draw(st.booleans()),
            "stale": draw(st.sampled_from(["absent", "junk", "long"])), "mode": draw(st.sampled_from([0o644, 0o600, 0o755])),
            "link": draw(st.sampled_from([None, None, None, "real", "rel"])),
            "fault": draw(st.sampled_from(["kill", "kill", "kill", "error", "error", "interrupt", "limit-kill"])),
            "at": draw(st.integers(0, 999)), "relative": draw(st.booleans())}


def stop_populate(w, case):
    for sub in ("in", "out"):
        (w / sub).mkdir(parents=True)
    cmd, req = case["cmd"], case["req"]
    src = f"in/{case['base']}" + (f"-{case['old']}" if case["old"] is not None else "") + ".whl"
    name = f"{case['base']}-{expected_label(req)}.whl" if cmd == "make" else f"{case['base']}.whl"
    out = "in" if case["beside"] else "out"
    if cmd == "make" and case["old"] is not None and case["over"] and case["beside"]:
        src = f"in/{name}"
    wheels.write(w / src, case["spec"])
    if case["stale"] != "absent" and f"{out}/{name}" != src:
        put(w, f"{out}/{name}", {"junk": b"an older wheel", "long": b"old " * 20000}[case["stale"]], case)
    (w / "pyproject.toml").write_text(docs.toml({"project": {"name": "x"}, "variant": case["doc"]}))
    here = pathlib.Path() if case["relative"] else w
    args = make_args(req, here / src, here / out, here / "pyproject.toml") if cmd == "make" else ["-f", here / src, "-o", here / out]
    return args, src, f"{out}/{name}"


def wheel_snapshot(w):
    snap = snapshot(w)
    for k, v in snap.items():
        if v[0] == "file" and v[2][:2] == b"PK":
            try:
                # the metadata file carries the time of its creation
                v[2] = [[n, data, attr if not n.endswith("/variant.json") else attr[:2]] for n, data, attr in wheels.read(w / k)]
            except (zipfile.BadZipFile, OSError):
                pass
    return snap


def stop_check(case, ctx):
    from variantlib.commands.make_variant import make_variant
    from variantlib.commands.unmake_variant import unmake_variant

    ctx.sys_path([])
    fn, fault = (make_variant if case["cmd"] == "make" else unmake_variant), case["fault"]
    ref, w = ctx.dir / "ref", ctx.dir / "w"
    args, src, target = stop_populate(w, case)
    start = wheel_snapshot(w)
    ref_args, _, _ = stop_populate(ref, case)
    expect_eq(wheel_snapshot(ref), start, "harness: files")
    ctx.chdir(ref)
    writes = fault == "error"
    r, steps = watched(ref, lambda: cli(fn, ref_args), writes)
    final, size = wheel_snapshot(ref), (ref / target).stat().st_size if (ref / target).exists() else 0
    ctx.label(case["cmd"], "sound" if r.ok else "not-sound", fault)
    if r.ok:
        changed = sorted(k for k in {**start, **final} if start.get(k) != final.get(k))
        real = os.path.relpath((ref / target).resolve(), ref)
        expect(changed in ([], [real]), "other files than the output are changed", changed=changed, target=target)
        if real in start:
            expect_eq(final[real][1], start[real][1], "permissions of a replaced wheel")
        ctx.label("over-input" if target == src else "replaced" if target in start else "new")
    else:
        expect_eq(final, start, "files after a failed command", r=r)
    ctx.chdir(w)
    if fault == "limit-kill":
        limit = size * case["at"] // 1000

        def setup():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))

        end, info = child(lambda: cli(fn, args).ok, setup), {"limit": limit}
    else:
        stop = case["at"] * steps // 1000 + 1 if steps else None
        info = {"step": stop, "of": steps}

        def act():
            if fault == "kill":
                os._exit(KILLED)
            raise Interrupt if fault == "interrupt" else OSError(5, "injected I/O error")

        def attempt():
            try:
                return watched(w, lambda: cli(fn, args).ok, writes, stop, act)[0]
            except Interrupt:
                return False

        end = child(attempt, lambda: None) if fault == "kill" else "ok" if attempt() else "failed"
    after = wheel_snapshot(w)
    ctx.label(f"{fault}-{end}")
    ctx.nontrivial(end != "ok" and final != start)
    info.update(fault=fault, end=end)
    if end == "ok":
        expect_eq(after, final, "files after a command that succeeds", **info)
        return
    for k in {**start, **final}:
        if after.get(k) != start.get(k):
            expect_eq(after.get(k), final.get(k), f"{k} is neither as it was nor complete", was=start.get(k), **info)
    extra = sorted(set(after) - set(start) - set(final))
    expect_eq([k for k in extra if end == "failed" or k.endswith(".whl")], [], "files left behind", **info)


CHECKS = [
    Check("failures", case, check, 4800, 120000,
          "make-variant and unmake-variant with bad arguments, rejected properties, failing providers, damaged wheels, "
          "injected I/O errors and interrupts, output next to or over the input; non-trivial when the command failed "
          "after argument parsing or with an existing output"),
    Check("stopped", stop_case, stop_check, 1500, 50000,
          "make-variant and unmake-variant, creating, replacing or overwriting (the input too), killed, interrupted or denied "
          "at any step they take in the directory, against an undisturbed run; non-trivial when the command did not finish and "
          "had something to write"),
]
