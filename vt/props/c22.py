"""C22: editing pyproject.toml changes only the requested providers."""
import os
import tomllib

from hypothesis import strategies as st

from vt import docs, gen, plugs
from vt.core import Check, HarnessError, Skip, Violation, expect, expect_eq
from vt.lib import cli

OTHER = [
    '# leading comment\n',
    '[build-system]\nrequires = ["setuptools>=61", "wheel"] # build deps\nbuild-backend = "setuptools.build_meta"\n',
    '[project]\nname = "pkg" # the name\nversion="1.0"\n# a comment\n\ndependencies = [\n    "a>=1",\n    # inner\n    "b",\n]\n',
    '[project.optional-dependencies]\ntest   =   ["pytest"]\n',
    '[tool.ruff]\nline-length = 88\n\n\n[tool.ruff.lint]\nselect = [ "E", "F" ]\n',
    "[[tool.mypy.overrides]]\nmodule = 'x.*'\nignore_missing_imports = true\n\n[[tool.mypy.overrides]]\nmodule = 'y'\n",
    '[tool.poetry.dependencies]\npython = "^3.8"\n"quoted.key" = {version = "1", optional = true}\n',
    '[tool.x]\ntext = """\n[variant.providers.fake]\nrequires = ["no"]\n"""\nlit = \'C:\\path\'\n',
    '[tool.variant]\nnamespace = ["a"] # not ours\n\n[tool.variant.providers.a]\nrequires = ["q"]\n',
    '[variants]\nx = 1979-05-27T07:32:00Z\ny = 0x1F\nz = 1_000\nf = 1e3\ninf = inf\n',
    '[tool."d\u00e9j\u00e0"]\nv = "\u4e2d\U0001f600 \\u00e9 \\t"\n',
    '[tool.empty]\n',
    '[tool.deep.a.b.c]\nk.l.m = 1\nk.l.n = 2\n',
]


@st.composite
def ns_block(draw, nss, other_prios):
    style = draw(st.sampled_from(["line", "line", "multi", "multi-comment", "trailing"]))
    q = draw(st.sampled_from(['"', '"', "'"]))
    items = [f"{q}{n}{q}" for n in nss]
    if style == "line" or not items:
        val = "[" + ", ".join(items) + "]"
    elif style == "trailing":
        val = "[ " + ",".join(items) + ", ]"
    elif style == "multi":
        val = "[\n" + "".join(f"    {i},\n" for i in items) + "]"
    else:
        val = "[\n" + "".join(f"    {i}, # about {i}\n" for i in items) + "    # end\n]"
    text = "[variant.default-priorities]" + draw(st.sampled_from(["", " # prios"])) + "\n"
    text += draw(st.sampled_from(["", "# best first\n"]))
    lines = [f"namespace{draw(st.sampled_from([' = ', '=']))}{val}{draw(st.sampled_from(['', '  # why']))}\n"] if nss is not None else []
    text += "".join(lines)
    if other_prios:
        text += "".join(other_prios)
    return text


@st.composite
def provider_lines(draw, dist):
    lines = {}
    if draw(st.integers(0, 3)):
        lines["requires"] = draw(st.lists(st.sampled_from(docs.REQS), min_size=1, max_size=3))
    if draw(st.booleans()):
        lines["plugin-api"] = draw(st.sampled_from(["old:Plugin", "old.mod", "m : C"]))
    if draw(st.integers(0, 2)) == 0:
        lines["enable-if"] = draw(st.sampled_from(docs.MARKERS_TRUE[:4] + docs.MARKERS_FALSE[:3]))
    if draw(st.integers(0, 2)) == 0:
        lines["optional"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        lines["install-time"] = draw(st.booleans())
    return lines


@st.composite
def case(draw):
    names = draw(gen.exact(gen.ns_token(), 2, 5))
    k = draw(st.integers(0, len(names)))
    declared, fresh = names[:k], names[k:]
    installed = [n for n in names if draw(st.integers(0, 3))]
    blocks = []  # [kind, name, text]
    table_ns, inline = [], []
    for n in declared:
        p = draw(provider_lines(n))
        style = draw(st.sampled_from(["table", "table", "table", "inline", "dotted"]))
        if not p:
            style = "table"
        key = n if draw(st.integers(0, 4)) else f'"{n}"'
        cm = f"# on {n}"
        if style == "table":
            t = f"[variant.providers.{key}]" + draw(st.sampled_from(["", f" {cm}"])) + "\n"
            t += draw(st.sampled_from(["", f"{cm} own\n", "\n"]))
            for a, b in p.items():
                pad = draw(st.sampled_from(["", "", "  "]))
                if isinstance(b, list) and draw(st.booleans()):
                    v = "[\n" + "".join(f"  {docs.toml_str(x)}, # {cm}\n" for x in b) + "]"
                else:
                    v = docs.toml_value(b)
                t += f"{pad}{a} = {v}" + draw(st.sampled_from(["", "", f" {cm} {a}"])) + "\n"
            table_ns.append(["prov", n, t])
        elif style == "inline":
            body = ", ".join(f"{a} = {docs.toml_value(b)}" for a, b in p.items())
            inline.append([n, f"{key} = {{{body}}}" + draw(st.sampled_from(["", f" {cm}"])) + "\n"])
        else:
            inline.append([n, "".join(f"{key}.{a} = {docs.toml_value(b)}" + draw(st.sampled_from(["", f" {cm} {a}"])) + "\n"
                                      for a, b in p.items())])
    have_dp = declared or draw(st.booleans())
    if have_dp:
        prios = []
        if draw(st.integers(0, 2)) == 0:
            prios.append("feature = " + docs.toml_value({n: ["f", "g"] for n in declared if draw(st.booleans())}) + " # feats\n")
        if draw(st.integers(0, 2)) == 0:
            prios += [f"property.{n}.f = ['1', '2'] # {n}\n" for n in declared if draw(st.booleans())]
        order = draw(gen.shuffled(declared))
        if draw(st.integers(0, 5)) == 0:
            order = [n for n in order if draw(st.booleans())]
        if order and draw(st.integers(0, 5)) == 0:
            # a hand-edited file may repeat a namespace
            for _ in range(draw(st.integers(1, 2))):
                order.insert(draw(st.integers(0, len(order))), draw(st.sampled_from(order)))
        blocks.append(["dp", None, draw(ns_block(order, prios))])
    if inline or draw(st.integers(0, 3)) == 0:
        blocks.append(["inline", None, "[variant.providers]" + draw(st.sampled_from(["", " # all"])) + "\n" + "".join(t for _, t in inline)])
    blocks += table_ns
    static = [n for n in declared if draw(st.integers(0, 3)) == 0]
    for n in static:
        blocks.append(["static", n, f"[variant.static-properties.{n}]\nf = ['1', '2'] # static {n}\ng = [\"x\"]\n"])
    if draw(st.integers(0, 3)) == 0:
        blocks = draw(gen.shuffled(blocks))
    other = [["other", None, t] for t in draw(st.lists(st.sampled_from(OTHER[1:]), max_size=5, unique=True))]
    if draw(st.integers(0, 3)) == 0:
        other.insert(0, ["other", None, OTHER[0]])
    mode = draw(st.sampled_from(["after", "before", "middle", "middle", "scattered"]))
    if mode == "after":
        blocks = other + blocks
    elif mode == "before":
        head = [o for o in other if o[2] == OTHER[0]]
        blocks = head + blocks + [o for o in other if o not in head]
    elif mode == "middle":
        at = draw(st.integers(0, len(other)))
        blocks = other[:at] + blocks + other[at:]
    else:
        pos = sorted(draw(st.lists(st.integers(0, len(blocks)), min_size=len(other), max_size=len(other))))
        out = []
        for i, b in enumerate([*blocks, None]):
            out += [o for o, p in zip(other, pos, strict=True) if p == i]
            if b:
                out.append(b)
        head = [o for o in out if o[2] == OTHER[0]]
        blocks = head + [b for b in out if b not in head]
    blocks = sorted(blocks, key=lambda b: b[2] != OTHER[0])  # the comment belongs to no section
    sep = draw(st.sampled_from(["\n", "\n", "\n", "", "\n\n"]))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        add = draw(st.lists(st.sampled_from(installed), max_size=3)) if installed else []
        if draw(st.integers(0, 4)) == 0:
            add.insert(draw(st.integers(0, len(add))), draw(st.sampled_from(names + ["absent_ns"])))
        dele = draw(st.lists(st.sampled_from([*names, "absent_ns"]), max_size=2))
        flags = draw(gen.shuffled([*[["-a", n] for n in add], *[["-d", n] for n in dele]]))
        ops.append({"flags": flags, "join": draw(st.booleans()), "bad": draw(st.sampled_from([None] * 9 + ["flag", "file", "both"]))})
    broken = draw(st.sampled_from([None] * 11 + ["syntax", "bytes", "variant", "providers", "namespace"]))
    text = sep.join(t for _, _, t in blocks)
    if draw(st.integers(0, 5)) == 0:
        text = text.rstrip("\n")
    if broken == "syntax":
        text += draw(st.sampled_from(["\nx = ", "\n[a", "\n[project]\n[project]\n", "\na = 1\na = 2\n", "\n= 3\n"]))
    elif broken == "variant":
        text = "variant = " + draw(st.sampled_from(["1", '"x"', "[]", "true", '["a"]'])) + "\n" + "".join(
            t for k, _, t in blocks if k == "other")
    elif broken in ("providers", "namespace"):
        others = "".join(t for k, _, t in blocks if k == "other")
        what = {"providers": "providers = ", "namespace": "default-priorities.namespace = "}[broken]
        val = draw(st.sampled_from(["1", '"xx"', "true", "1.5"]))
        text = f"{others}\n[variant]\n{what}{val}\n"
    eol = draw(st.sampled_from(["\n", "\n", "\n", "\r\n"]))
    raw = text.replace("\n", eol).encode()
    if broken == "bytes":
        raw += b"# \xff\xfe\n"
    return {"hex": raw.hex(), "blocks": [[k, n, t] for k, n, t in blocks], "inline": inline, "broken": broken, "eol": eol,
            "installed": installed, "names": names, "ops": ops,
            "spaced": draw(st.sampled_from([False, False, False, True])),
            "versions": [draw(st.sampled_from(["1.0", "0", "2.0.1+local", "1!3", "2024.1.dev2"])) for _ in names],
            "default_file": draw(st.booleans()), "dirmode": draw(st.booleans())}


def ordered(blocks):
    """TOML tables in natural order: [variant.*] together, its sub-tables together, parents first."""
    at = [i for i, b in enumerate(blocks) if b[0] != "other"]
    kinds = ["prov" if b[0] == "inline" else b[0] for b in blocks if b[0] != "other"]
    runs = [k for i, k in enumerate(kinds) if i == 0 or kinds[i - 1] != k]
    where = [b[0] for b in blocks]
    parents = "inline" not in where or "prov" not in where or where.index("inline") < where.index("prov")
    return (not at or at[-1] - at[0] + 1 == len(at)) and len(runs) == len(set(runs)) and parents


def normal(data):
    """Absent and empty containers of the edited tables mean the same."""
    data = {k: v for k, v in data.items()}
    v = dict(data.get("variant", {}))
    dp = dict(v.get("default-priorities", {}))
    dp.setdefault("namespace", [])
    v["default-priorities"] = dp
    v.setdefault("providers", {})
    if not v.get("static-properties"):
        v.pop("static-properties", None)
    data["variant"] = v
    return data


def apply(data, add, dele, info):
    """The documented effect on the parsed (normalised) file; None if refused."""
    v = data["variant"]
    nsp, prov = v["default-priorities"]["namespace"], v["providers"]
    static = v.get("static-properties", {})
    for n in dele:
        nsp[:] = [x for x in nsp if x != n]
        prov.pop(n, None)
        static.pop(n, None)
    for n in add:
        if n not in info:
            return None
        if n not in nsp:
            nsp.append(n)
        p = prov.setdefault(n, {})
        p["plugin-api"] = info[n]["api"]
        p.setdefault("requires", info[n]["requires"])
    return normal(data)


def check(case, ctx):
    from variantlib.commands.update_pyproject_toml import update_pyproject_toml

    raw = bytes.fromhex(case["hex"])
    try:
        before = tomllib.loads(raw.decode("utf-8"))
    except ValueError:
        if case["broken"] not in ("syntax", "bytes"):
            raise Skip("the generated file is not valid TOML") from None
        before = None
    d = ctx.mkdir("plugins")
    site = ctx.mkdir("site")
    info = {}
    for i, n in enumerate(case["names"]):
        if n not in case["installed"]:
            continue
        spec = {"ns": n, "all": [["f", ["1"], False]], "sup": [["f", ["1"], False]], "form": plugs.FORMS[i % len(plugs.FORMS)], "aot": True}
        api = plugs.write(d, f"vtplug{i}", spec)
        di = site / f"dist{i}-1.0.dist-info"
        di.mkdir()
        ver = case["versions"][i]
        (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: Dist.Name{i}\nVersion: {ver}\n")
        written = api.replace(":", " : ") if case["spaced"] else api
        (di / "entry_points.txt").write_text(f"[variant_plugins]\nep{i} = {written}\n")
        info[n] = {"api": api, "requires": [f"Dist.Name{i} >={ver}"]}
    ctx.setenv("PYTHONPATH", f"{d}:/repo")
    ctx.sys_path([site])
    work = ctx.mkdir("work")
    ctx.chdir(work)
    path = work / ("pyproject.toml" if case["default_file"] else "other.toml")
    path.write_bytes(raw)
    deleted, touched = set(), set()
    ctx.label(f"ops={len(case['ops'])}", f"broken-{case['broken']}", "crlf" if case["eol"] != "\n" else "lf",
              f"declared={sum(k in ('prov',) for k, _, _ in case['blocks'])}")
    changed = 0
    natural = ordered(case["blocks"])
    ctx.label("natural" if natural else "out-of-order")
    model = normal(before) if before is not None and case["broken"] is None else None
    for op in case["ops"]:
        args = [] if case["default_file"] else ["-f", str(path)]
        if op["bad"] == "file":
            args = ["-f", str(work / "missing.toml")]
        cur = None
        for f, n in op["flags"]:
            if op["join"] and cur == f:
                args.append(n)
            else:
                args += [f, n]
            cur = f
        if op["bad"] == "flag":
            args += ["--frobnicate"]
        if op["bad"] == "both":
            args += ["-a"]
        add = [n for f, n in op["flags"] if f == "-a"]
        dele = [n for f, n in op["flags"] if f == "-d"]
        old = path.read_bytes()
        r = cli(update_pyproject_toml, args)
        new = path.read_bytes()
        expect_eq(sorted(os.listdir(work)), [path.name], "files in the directory")
        invalid = not op["flags"] or op["bad"] is not None or case["broken"] in ("syntax", "bytes", "variant")
        if case["broken"] in ("providers", "namespace") and not invalid:
            invalid = bool(add)
        if not invalid and any(n not in info for n in add):
            invalid = True
            ctx.label("not-installed")
        if invalid:
            expect_eq(new, old, "the file after a refused command", args=args, result=r)
            expect(not r.ok, "an invalid command succeeds", args=args, broken=case["broken"], file=old)
            continue
        if model is None:
            expect(r.ok or new == old, "a failed command changes the file", result=r)
            continue
        if not r.ok:
            expect_eq(new, old, "the file after a failed command", args=args, result=r)
            raise Violation(f"a valid command fails: {args} {r} {old!r}")
        want = apply(model, add, dele, info)
        if want is None:
            raise HarnessError("model refuses")
        text = new.decode()
        try:
            after = tomllib.loads(text)
        except ValueError as exc:
            raise Violation(f"the file is no longer valid TOML: {exc}; args {args}; before {old!r}; after {new!r}") from exc
        expect_eq(normal(after), want, "content of the file", args=args, before=old.decode(), after=text)
        model = want
        deleted |= set(dele)
        touched |= set(add) | set(dele)
        changed += new != old
        eol = case["eol"]
        for kind, n, t in case["blocks"]:
            t = t.rstrip("\n")
            if kind == "other" or (kind == "prov" and n not in touched) or (kind == "static" and n not in deleted):
                expect(t.replace("\n", eol) in text, f"text of an untouched section ({kind} {n}) changed", want=t, args=args,
                       before=raw.decode(), after=text)
            elif kind == "dp":
                for ln in t.split("\n"):
                    if "# about" not in ln and not ln.startswith("namespace") and ln.strip():
                        if "#" in ln and ("[" not in ln or ln.startswith(("feature", "property", "[variant"))):
                            expect(ln in text, "a comment or setting in the priorities is lost", line=ln, args=args,
                                   before=raw.decode(), after=text)
        for n, t in case["inline"]:
            if n not in touched:
                for ln in t.rstrip("\n").split("\n"):
                    expect(ln in text, f"text of an untouched provider ({n}) changed", want=ln, args=args, after=text)
        if b"\r\n" in raw:
            expect("\n" not in text.replace("\r\n", ""), "line endings changed", after=new)
    ctx.nontrivial(changed and any(k != "dp" for k, _, _ in case["blocks"]) or
                   (case["broken"] is None and any(n not in info for op in case["ops"] for f, n in op["flags"] if f == "-a")))


CHECKS = [
    Check("edits", case, check, 4000, 60000,
          "1-4 consecutive edits of files mixing generated [variant] tables (sections, inline and dotted tables, "
          "comments, any placement) with other content; non-trivial when a file with other content changes or a "
          "provider to add is not installed"),
]
