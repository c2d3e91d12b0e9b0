"""C30: the variantlib command does what its command functions do, and its exit status tells."""
import importlib
import json
import os
import pathlib
import subprocess
import sys
import tomllib
import zipfile

from hypothesis import strategies as st

from vt import docs, gen, model, plugs, wheels
from vt.core import REPO, Check, HarnessError, expect, expect_eq
from vt.lib import cli
from vt.props.c19 import WHEEL
from vt.props.c25 import add_plugins, site_with_commands

DI = "pkg-1.0.dist-info"
LAUNCH = "import sys; from {mod} import {fn}; sys.exit({fn}())"
ENVS = [{}, {}, {"PYTHONOPTIMIZE": "1"}, {"LC_ALL": "C"}, {"PYTHONHASHSEED": "7", "COLUMNS": "20"}, {"PYTHONDEVMODE": "1"}]
REFUSED = [[], ["nonsense"], ["plugins"], ["config"], ["config", "nope"], ["plugins", "nope"], ["--bogus"], ["make-variant"],
           ["unmake-variant"], ["generate-index-json"], ["add-wheel-to-index-json"], ["update-pyproject-toml"],
           ["analyze-wheel"], ["config", "show", "junk"], ["plugins", "list", "junk"], ["get-variant-hash", "--null"],
           ["show"], ["list"], ["make_variant", "-h"], ["--version=1"]]
OPTIONS = ["--bogus", "--frobnicate", "-Z", "--filex=y", "--out-directory"]
JUNK = ["junk", *OPTIONS, "junk"]
MANGLE = ["cut", "head", "last", "upper", "underscore", "more", "dash", "space", "empty", "joined"]
HELPS = [["-h"], ["--help"], ["make-variant", "-h"], ["config", "-h"], ["plugins", "-h"], ["config", "show", "--help"],
         ["get-variant-hash", "-h"], ["update-pyproject-toml", "--help"]]


@st.composite
def wheel_files(draw, doc, uni, n):
    """{name: [variant, what]} of variant wheels for one project."""
    good = docs.static_supported(doc) or gen.all_props(uni)
    out, seen = {}, set()
    _nv, base = draw(wheels.base_name())
    for _ in range(n):
        v = draw(gen.prop_list(good, max_size=3))
        label = "null" if not v else draw(docs.label_text()) if draw(st.booleans()) else model.variant_hash(v)
        key = frozenset(map(tuple, v))
        if key in seen or f"{base}-{label}.whl" in out:
            continue
        seen.add(key)
        out[f"{base}-{label}.whl"] = [v, label, draw(st.sampled_from(["fine", "fine", "fine", "wrong-label", "none", "damaged",
                                                                      "not-json"]))]
    return base, out


@st.composite
def case(draw):
    uni = draw(gen.universe(2, 3, 3))
    doc = draw(docs.info(uni, "project", ("aot",)))
    cmd = draw(st.sampled_from(["hash", "make", "make", "make", "unmake", "generate", "add", "add", "analyze", "config", "update",
                                "update", "plugins", "refused", "refused", "help"]))
    base, ws = draw(wheel_files(doc, uni, draw(st.integers(1, 4))))
    names = draw(gen.exact(gen.ns_token(), 1, 3))
    specs = []
    for ns in names:
        b = draw(plugs.behaviour(ns, next(iter(draw(gen.universe(1, 2, 3)).values()))).filter(lambda b: b["sup"]))
        specs.append(b)
    pool = docs.static_supported(doc) + gen.all_props(uni)
    props = draw(gen.prop_list(pool, min_size=1, max_size=3))
    c = {"doc": doc, "cmd": cmd, "base": base, "wheels": ws, "specs": specs, "props": props,
         "fault": draw(st.sampled_from([None, None, None, "missing", "damaged", "usage", "no-output"])),
         "label": draw(st.sampled_from([None, None, "my_label", "x.y"])), "null": draw(st.integers(0, 5)) == 0,
         "skip": draw(st.booleans()), "flag": draw(st.booleans()), "flag2": draw(st.booleans()),
         "nss": draw(st.lists(st.sampled_from([*names, *names, *doc["providers"], "absent_ns"]), min_size=1, max_size=3)),
         "n": draw(st.integers(0, 50)), "default_file": draw(st.booleans()),
         "config": draw(docs.user_config(uni)), "config_at": draw(st.sampled_from(["local", "user", "none"])),
         "via": draw(st.sampled_from([None, "hash", "make", "unmake", "generate", "add", "analyze", "config", "update", "plugins"])),
         "mangle": draw(st.sampled_from(MANGLE)),
         "spell": draw(st.sampled_from(["plain", "dot", "dotdot", "link", "abs"])), "env": draw(st.integers(0, len(ENVS) - 1))}
    return c


def mangled(name, how):
    """Another name, which no command has."""
    head, _, last = name.rpartition("-")
    return {"cut": name[:-1], "head": head or name[:3], "last": last[:-1] if not head else last, "upper": name.upper(),
            "underscore": name.replace("-", "_") if "-" in name else f"{name}_", "more": f"{name}s", "dash": f"--{name}",
            "space": f" {name}", "empty": "", "joined": name.replace("-", "") if "-" in name else f"{name}-"}[how]


def populate(d, case):
    """The working directory; returns the arguments, paths as {'path': ...}."""
    if case["cmd"] == "refused" and case["via"]:
        args = populate(d, {**case, "cmd": case["via"], "fault": None, "via": None})
        k = 1 if args[0] in ("config", "plugins") and case["flag"] else 0
        return [*args[:k], mangled(args[k], case["mangle"]), *args[k + 1:]]
    for sub in ("in", "out", "sub"):
        (d / sub).mkdir(parents=True)
    (d / "ln").symlink_to(".")
    doc, fault, cmd = case["doc"], case["fault"], case["cmd"]
    if not (fault == "missing" and cmd == "update"):
        (d / "pyproject.toml").write_text("# the project\n" + docs.toml({"variant": doc}))
    full = {**doc, "variants": {}}
    plain = f"{case['base']}.whl"
    wheels.write(d / "in" / plain, WHEEL)
    for name, (v, label, what) in case["wheels"].items():
        members = list(WHEEL["members"])
        text = json.dumps({**full, "variants": {"other.label" if what == "wrong-label" and v else label: docs.nested(v)}})
        if what != "none":
            members.append({"name": f"{DI}/variant.json", "data": (text if what != "not-json" else text[:-1]).encode().hex()})
        wheels.write(d / "in" / name, {**WHEEL, "members": members})
        if what == "damaged":
            p = d / "in" / name
            p.write_bytes(p.read_bytes()[:-30])
    (d / "in" / "notes.txt").write_text("not a wheel")
    if case["config_at"] == "local":
        (d / "variants.toml").write_text(docs.config_toml(*case["config"]) + ("bogus = 1\n" if fault == "damaged" else ""))
        os.utime(d / "variants.toml", (1700000000, 1700000000))
    P = lambda p: {"path": p}  # noqa: E731
    names = sorted(case["wheels"])
    pick = names[case["n"] % len(names)]
    use = plain
    out = P("missing" if fault == "no-output" else "out" if case["flag"] else "in")
    if cmd == "hash":
        args = ["get-variant-hash"]
        for p in case["props"]:
            args += ["-p", "::".join(p) if case["flag"] else " :: ".join(p)]
        return [*args, "-p", "a :: b"] if fault else args
    if cmd == "make":
        if fault == "damaged":
            p = d / "in" / use
            p.write_bytes(p.read_bytes()[:-30])
        args = ["make-variant", "-f", P("in/" + (use if fault != "missing" else "x-1-py3-none-any.whl")), "-o", out, "--no-isolation"]
        if not case["default_file"]:
            args += ["--pyproject-toml", P("pyproject.toml")]
        args += ["--null-variant"] if case["null"] else ["-p", *[" :: ".join(p) for p in case["props"]]]
        if case["label"]:
            args += ["--variant-label", case["label"]]
        if case["skip"]:
            args.append("--skip-plugin-validation")
        return args + ([OPTIONS[case["n"] % len(OPTIONS)]] if fault == "usage" else [])
    if cmd in ("unmake", "analyze"):
        use = "x-1-py3-none-any-l.whl" if fault == "missing" else plain if case["n"] % 5 == 0 else pick
        if cmd == "unmake":
            args = ["unmake-variant", "-f", P("in/" + use), "-o", out]
        else:
            args = ["analyze-wheel", "-i", P("in/" + use)]
        return args + ([JUNK[case["n"] % len(JUNK)]] if fault == "usage" else [])
    if cmd == "generate":
        return ["generate-index-json", "-d", P("nowhere" if fault == "missing" else "in")] + ([JUNK[case["n"] % len(JUNK)]] if fault == "usage" else [])
    if cmd == "add":
        args = ["add-wheel-to-index-json", "-f", P("in/" + pick), "-o", out]
        other = names[(case["n"] + 1) % len(names)]
        namever = "-".join(pick.split("-")[:2])
        index = pathlib.Path("out") / f"{namever}-variants.json"
        if case["flag2"]:
            v, label, _ = case["wheels"][other]
            text = json.dumps({**full, "variants": {label: docs.nested(v)}})
            (d / index).write_text(text[:-2] if fault == "damaged" else text)
            args += ["-i", P("out/nothing.json" if fault == "missing" else str(index))]
        if case["n"] % 3:
            args.append("-w")
        return args + ([JUNK[case["n"] % len(JUNK)]] if fault == "usage" else [])
    if cmd == "config":
        return ["config", *(["show"] if case["flag"] else ["list-paths"]), *([] if case["flag"] or case["flag2"] else ["-v"]),
                *([JUNK[case["n"] % len(JUNK)]] if fault == "usage" else [])]
    if cmd == "update":
        args = ["update-pyproject-toml"] + ([] if case["default_file"] else ["-f", P("pyproject.toml")])
        for i, n in enumerate(case["nss"]):
            args += [["-a", "-d"][(case["n"] >> i) & 1], n]
        return args + ([OPTIONS[case["n"] % len(OPTIONS)]] if fault == "usage" else [])
    if cmd == "plugins":
        k = case["n"] % 4
        if k == 0:
            args = ["plugins", "list"]
        elif k == 1:
            args = ["analyze-platform"]
        else:
            args = ["plugins", "get-configs", ["-a", "-s", "--all", "--supported"][case["n"] % 3]]
            if case["flag"]:
                args += ["-n", case["nss"][0]]
        return args + ([JUNK[case["n"] % len(JUNK)]] if fault == "usage" else [])
    if cmd == "refused":
        return REFUSED[case["n"] % len(REFUSED)]
    return HELPS[case["n"] % len(HELPS)]


def spelled(path, how, d):
    return {"plain": path, "dot": f"./{path}", "dotdot": f"sub/../{path}", "link": f"ln/{path}", "abs": str(d / path)}[how]


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = pathlib.Path(root, n)
            rel = str(p.relative_to(d))
            if p.is_symlink():
                out[rel] = ["link", os.readlink(p)]
            elif p.is_dir():
                out[rel] = ["dir", p.stat().st_mode]
            else:
                out[rel] = ["file", p.stat().st_mode, content(p)]
    return out


def content(p):
    if p.suffix == ".whl":
        try:
            # the metadata file carries the time of its creation
            return [[n, data.hex(), attr if not n.endswith("/variant.json") else attr[:2]] for n, data, attr in wheels.read(p)]
        except (zipfile.BadZipFile, OSError):
            pass
    return p.read_bytes().hex()


def function(eps, args):
    """The function of a (sub)command and its arguments."""
    group, rest = "variantlib.actions", list(args)
    name = rest.pop(0)
    if name == "config":
        group, name = f"variantlib.actions.{name}", rest.pop(0)
    mod, fn = eps[group][name].split(":")
    return getattr(importlib.import_module(mod), fn), rest


def check(case, ctx):
    import variantlib

    project = tomllib.loads((REPO / "pyproject.toml").read_text())["project"]
    site = site_with_commands(ctx)
    for s in case["specs"]:
        s["dist"] = 0
    add_plugins(ctx, site, case["specs"])
    ctx.setenv("XDG_CONFIG_HOME", str(ctx.dir / "cfg"))
    ctx.setenv("XDG_CONFIG_DIRS", str(ctx.dir / "etc"))
    if case["config_at"] == "user":
        p = ctx.dir / "cfg" / "variantlib" / "variants.toml"
        p.parent.mkdir(parents=True)
        p.write_text(docs.config_toml(*case["config"]))
    a, b = ctx.dir / "a", ctx.dir / "b"
    args = populate(a, case)
    expect_eq(populate(b, case), args, "harness: arguments")
    start = snapshot(a)
    expect_eq(snapshot(b), start, "harness: files")
    cmd = case["cmd"]
    ctx.label(cmd, f"spell-{case['spell']}")

    plain = [x["path"] if isinstance(x, dict) else x for x in args]
    real = [spelled(x["path"], case["spell"], b) if isinstance(x, dict) else x for x in args]
    mod, fn = project["scripts"]["variantlib"].split(":")
    env = {**os.environ, "PYTHONPATH": os.pathsep.join([str(site), os.environ["PYTHONPATH"]]), "PYTHONDONTWRITEBYTECODE": "1",
           **ENVS[case["env"]]}
    try:
        r = subprocess.run([sys.executable, "-c", LAUNCH.format(mod=mod, fn=fn), *real], cwd=b, env=env, stdin=subprocess.DEVNULL,
                           capture_output=True, timeout=120)
    except subprocess.TimeoutExpired as exc:
        raise HarnessError(f"the command does not end: {real}") from exc
    out, err = r.stdout.decode(), r.stderr.decode("utf8", "replace")
    info = {"args": real, "status": r.returncode, "out": out, "err": err}
    if cmd in ("refused", "help"):
        expect_eq(snapshot(b), start, "files after a command that was not to do anything", **info)
        if cmd == "refused":
            expect(r.returncode != 0 and not out and err, "a wrong command line is not refused", **info)
        else:
            expect(r.returncode == 0 and "usage:" in out, "no help", **info)
        if case["flag"]:
            for opt in ("--version", "-v"):
                v = subprocess.run([sys.executable, "-c", LAUNCH.format(mod=mod, fn=fn), opt], cwd=b, env=env, capture_output=True,
                                   timeout=120)
                expect(v.returncode == 0 and variantlib.__version__ in v.stdout.decode(), "no version", out=v.stdout, err=v.stderr)
        return
    ctx.chdir(a)
    fault, must_fail = case["fault"], False
    if fault == "usage" or fault == "missing" and cmd in ("make", "unmake", "analyze", "generate", "update") \
            or fault == "missing" and cmd == "add" and case["flag2"] or fault == "no-output" and cmd in ("make", "unmake", "add"):
        must_fail = True
        ctx.label(f"{cmd}-must-fail")
    func, rest = function(project["entry-points"], plain)
    want = cli(func, rest)
    ctx.label(f"{cmd}-{'ok' if want.ok else 'fails'}")
    ctx.nontrivial(cmd in ("make", "unmake", "generate", "add", "update") or not want.ok)
    expect_eq(r.returncode == 0, want.ok, "success by exit status", want=want, **info)
    expect(0 <= r.returncode < 128, "the command was killed", **info)
    if must_fail:
        expect(r.returncode != 0, f"a command with a {fault} fault is not refused", **info)
        expect_eq(snapshot(b), start, "files after a refused command", **info)
    if not want.ok:
        expect(err.strip(), "a failing command gives no reason on standard error", **info)

    def norm(text):
        for x in sorted((x["path"] for x in args if isinstance(x, dict)), key=len, reverse=True):
            s = spelled(x, case["spell"], b)
            text = text.replace(s, "<" + x + ">").replace(str(pathlib.Path(s)), "<" + x + ">").replace(x, "<" + x + ">")
            while "<<" in text:
                text = text.replace(f"<<{x}>>", f"<{x}>")
        return text.replace(str(a), "@").replace(str(b), "@")

    got_out, want_out = norm(out), norm(want.out)
    expect_eq(got_out, want_out, "standard output", **info)
    expect_eq(snapshot(b), snapshot(a), "files after the command", **info)


CHECKS = [
    Check("process", case, check, 900, 20000,
          "every command, sound and failing in several ways, run as a process with paths spelled in five ways and under several "
          "environments, against its function called in process on a copy of the files; non-trivial when files are written "
          "or the command fails"),
]
