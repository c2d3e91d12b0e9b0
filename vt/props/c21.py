"""C21: the effective user configuration is the first existing file, validated."""
import re
import sys

from hypothesis import strategies as st

from vt import docs, gen
from vt.core import Check, Violation, expect, expect_eq
from vt.lib import cli
from vt.model import is_name

LEVELS = ["LOCAL", "VIRTUALENV", "USER", "GLOBAL"]
WRONG = ["x", "", 1, 0, 1.5, True, False, [], {}, [1], ["x", 1], [["x"]], [[]], {"x": "y"}, {"x": 1}, {"x": {}}, {"x": ["y"]},
         {"x": {"y": ["z"]}}, {"x": [1]}, {"x": [["y"]]}, {"x": {"y": "z"}}, {"x": {"y": [1]}}, {"x": {"y": {"z": ["w"]}}},
         {"x": [True]}, [{}], [{"a": "b"}], {"x": False}, {"x": 0}, {"x": ""}, {"x": {"y": 0}}, {"x": {"y": False}}]


def types_ok(key, v):
    """Well-typed value of a setting."""
    def strs(x):
        return type(x) is list and all(type(i) is str for i in x)

    if key == "namespace_priorities":
        return strs(v)
    if type(v) is not dict:
        return False
    if key == "feature_priorities":
        return all(strs(x) for x in v.values())
    return all(type(x) is dict and all(strs(y) for y in x.values()) for x in v.values())


def names_ok(v):
    return all(is_name(x) for x in v)


@st.composite
def content(draw):
    """[text, data or None for an invalid file]"""
    free = st.one_of(gen.feat_token(), gen.val_token(), gen.json_text().filter(lambda s: not any("\ud800" <= c <= "\udfff"
                                                                                              for c in s)))
    # names mean the same everywhere: values are free text in configuration files
    nss = draw(st.lists(gen.ns_token(), max_size=4, unique=True))
    data = {}
    if draw(st.integers(0, 3)):
        data["namespace_priorities"] = draw(st.lists(st.sampled_from([*nss, "zz"]), max_size=4))
    lists = st.lists(free, max_size=4)
    if draw(st.booleans()):
        data["feature_priorities"] = {ns: draw(lists) for ns in nss if draw(st.booleans())}
    if draw(st.booleans()):
        data["property_priorities"] = {ns: draw(st.dictionaries(free, lists, max_size=3)) for ns in nss if draw(st.booleans())}
    kind = draw(st.sampled_from(["good"] * 5 + ["empty", "syntax", "unknown", "type", "type", "namespace", "namespace", "bytes"]))
    ok = True
    if kind == "empty":
        return {"hex": draw(st.sampled_from(["", "# nothing\n", "\n\n"])).encode().hex(), "data": {}, "kind": kind}
    if kind == "unknown":
        data[draw(st.sampled_from(["namespaces", "namespace-priorities", "provider", "cls", "x", "Namespace_priorities", "self"]))] = \
            draw(st.sampled_from(WRONG))
        ok = False
    elif kind == "type":
        k = draw(st.sampled_from(["namespace_priorities", "feature_priorities", "property_priorities"]))
        data[k] = draw(st.sampled_from(WRONG))
        ok = types_ok(k, data[k])
    elif kind == "namespace":
        bad = draw(gen.bad_token(False).filter(lambda s: not any("\ud800" <= c <= "\udfff" for c in s)))
        k = draw(st.sampled_from(["namespace_priorities", "feature_priorities", "property_priorities"]))
        if k == "namespace_priorities":
            lst = data.setdefault(k, [])
            lst.insert(draw(st.integers(0, len(lst))), bad)
        elif k == "feature_priorities":
            data.setdefault(k, {})[bad] = draw(lists)
        else:
            data.setdefault(k, {})[bad] = {draw(free): draw(lists)} if draw(st.booleans()) else {}
        ok = is_name(bad)
    text = docs.toml(data)
    if kind == "good" and draw(st.booleans()):
        text = "# comment \u00e9\n" + re.sub(r"(?m)^([\w-]+) = ", r"\1=", text)
    if kind == "syntax":
        text = draw(st.sampled_from([text + "\nx = ", text + "[", "namespace_priorities\n" + text, "= 1\n" + text,
                                     text + "\nnamespace_priorities = ['a'\n", text + text + "a = 1\na = 2\n", "{}", "[[", '"',
                                     "namespace_priorities = nothing\n"]))
        ok = False
    raw = text.encode("utf-8")
    if kind == "bytes":
        raw += b"\n# \xff\xfe\n"
        ok = False
    return {"hex": raw.hex(), "data": data if ok else None, "kind": kind if not ok else "good"}


@st.composite
def case(draw):
    have = draw(st.lists(st.booleans(), min_size=4, max_size=4))
    return {"files": [draw(content()) if h else None for h in have], "show": draw(st.none() | st.sampled_from(LEVELS)),
            "twice": draw(st.booleans())}


def norm(data):
    """Empty tables mean nothing."""
    return [list(data.get("namespace_priorities", [])),
            {k: list(v) for k, v in data.get("feature_priorities", {}).items()},
            {k: {f: list(x) for f, x in v.items()} for k, v in data.get("property_priorities", {}).items() if v}]


def norm_lib(c):
    return norm({"namespace_priorities": c.namespace_priorities, "feature_priorities": c.feature_priorities,
                 "property_priorities": c.property_priorities})


def check(case, ctx):
    from variantlib.api import get_variants_by_priority
    from variantlib.commands.config.list_paths import list_paths
    from variantlib.commands.config.show import show
    from variantlib.configuration import VariantConfiguration, get_configuration_files

    ctx.sys_path([])
    ctx.chdir(ctx.mkdir("cwd"))
    ctx.setattr(sys, "prefix", str(ctx.mkdir("venv")))
    ctx.setenv("XDG_CONFIG_HOME", str(ctx.dir / "cfg"))
    ctx.setenv("XDG_CONFIG_DIRS", f"{ctx.dir / 'etc'}:{ctx.dir / 'etc2'}")
    paths = [ctx.dir / "cwd" / "variants.toml", ctx.dir / "venv" / "variants.toml",
             ctx.dir / "cfg" / "variantlib" / "variants.toml", ctx.dir / "etc" / "variantlib" / "variants.toml"]
    for p, f in zip(paths, case["files"], strict=True):
        if f is not None:
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(bytes.fromhex(f["hex"]))
    first = next((i for i, f in enumerate(case["files"]) if f is not None), None)
    eff = case["files"][first] if first is not None else {"data": {}, "kind": "none"}
    n = sum(f is not None for f in case["files"])
    ctx.label(f"files={n}", f"effective-{eff['kind']}", f"level-{LEVELS[first] if first is not None else 'none'}")
    ctx.nontrivial(n >= 2 or eff["data"] is None)
    expect_eq([str(p) for p in get_configuration_files().values()], [str(p) for p in paths], "configuration files")
    r = cli(list_paths, [])
    expect_eq(r.out, "".join(f"{k}: {p}\n" for k, p in zip(LEVELS, paths, strict=True)), "config list-paths")
    r = cli(list_paths, ["-v"])
    rows = r.out.splitlines()
    expect_eq(len(rows), 4, "lines of config list-paths -v", out=r.out)
    for k, p, f, row in zip(LEVELS, paths, case["files"], rows, strict=True):
        expect(row.startswith(f"{k}: {p} ") and ("not found" in row) == (f is None) and (
            f is None or str(len(f["hex"]) // 2) in row[len(f"{k}: {p}"):]), "config list-paths -v", row=row, exists=f is not None)

    def effective():
        return VariantConfiguration.get_config()

    def attributes():
        return [VariantConfiguration.namespace_priorities, VariantConfiguration.feature_priorities,
                VariantConfiguration.property_priorities]

    for _ in range(2 if case["twice"] else 1):
        for fn in (effective, attributes):
            try:
                got = fn()
            except Exception as exc:
                expect(eff["data"] is None, "a valid configuration is an error", error=repr(exc), cause=repr(exc.__cause__),
                       files=[f and bytes.fromhex(f["hex"]) for f in case["files"]])
                continue
            expect(eff["data"] is not None, "an invalid configuration file is accepted", kind=eff["kind"],
                   file=bytes.fromhex(eff.get("hex", "")), got=got)
            if fn is effective:
                expect_eq(norm(got.to_dict()), norm(eff["data"]), "configuration in effect as a dictionary")
                got = norm_lib(got)
            else:
                got = norm(dict(zip(["namespace_priorities", "feature_priorities", "property_priorities"], got, strict=True)))
            expect_eq(got, norm(eff["data"]), "configuration in effect", level=first)
    # resolution notices
    idx = {"default-priorities": {"namespace": ["a"]}, "providers": {"a": {"install-time": False}},
           "static-properties": {"a": {"f": ["1", "2"]}}, "variants": {"x": {"a": {"f": ["2"]}}, "y": {"a": {"f": ["1"]}}}}
    try:
        got = get_variants_by_priority(variants_json=idx)
    except Exception as exc:
        expect(eff["data"] is None, "resolution fails", error=repr(exc))
    else:
        expect(eff["data"] is not None, "resolution ignores an invalid configuration file", kind=eff["kind"])
        c = norm(eff["data"])
        want = [ls[0] for ls, _ in docs.resolve(idx, [["a", "f", "1"], ["a", "f", "2"]], tuple(c))[0]]
        expect_eq(got, want, "resolution under the configuration")
    # config show
    for env in (None, case["show"]):
        r = cli(show, [env] if env else [])
        f = case["files"][LEVELS.index(env)] if env else eff
        if f is None or f["data"] is None:
            expect(not r.ok, "config show of an unusable configuration succeeds", env=env, result=r)
            continue
        expect(r.ok, "config show fails", result=r)
        out = ctx.dir / "shown.toml"
        out.write_text(r.out, encoding="utf-8")
        try:
            back = norm_lib(VariantConfiguration.get_config_from_file(out))
        except Exception as exc:
            raise Violation(f"config show prints what cannot be loaded: {exc!r} {exc.__cause__!r}; {r.out!r}") from exc
        # a table without entries cannot be shown
        expect_eq(back, norm(f["data"]), "what config show prints, loaded again", shown=r.out)


CHECKS = [
    Check("files", case, check, 4000, 120000,
          "any subset of the four files with valid and invalid contents; non-trivial with several files or an invalid "
          "effective one"),
]
