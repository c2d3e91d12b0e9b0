"""C25: reporting commands show what the library computes."""
import json
import tomllib

from hypothesis import strategies as st

from vt import docs, gen, model, plugs, wheels
from vt.core import REPO, Check, expect, expect_eq
from vt.lib import VD, cli
from vt.props.c16 import configs
from vt.props.c23 import SPEC


def site_with_commands(ctx):
    """A site directory where variantlib's own commands are registered."""
    site = ctx.mkdir("site")
    eps = tomllib.loads((REPO / "pyproject.toml").read_text())["project"]["entry-points"]
    di = site / "variantlib-0.0.dist-info"
    di.mkdir()
    (di / "METADATA").write_text("Metadata-Version: 2.1\nName: variantlib\nVersion: 0.0\n")
    (di / "entry_points.txt").write_text("".join(
        f"[{g}]\n" + "".join(f"{k} = {v}\n" for k, v in d.items()) for g, d in eps.items()))
    return site


def add_plugins(ctx, site, specs, empty_dist=False):
    d = ctx.mkdir("plugins")
    per: dict = {}
    for i, s in enumerate(specs):
        api = plugs.write(d, f"vtplug{i}", s)
        per.setdefault(s.get("dist", i), []).append(f"ep{i} = {api}\n")
    for k, lines in per.items():
        di = site / f"dist{k}-1.{k}.dist-info"
        di.mkdir()
        (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: dist{k}\nVersion: 1.{k}\n")
        (di / "entry_points.txt").write_text("[console_scripts]\nx = y:z\n[variant_plugins]\n" + "".join(lines))
    ctx.setenv("PYTHONPATH", f"{d}:/repo")
    ctx.sys_path([site])


@st.composite
def case_plugins(draw):
    names = draw(gen.exact(gen.ns_token(), 0, 4))
    specs = []
    for ns in names:
        all_ = draw(configs(4).filter(bool))
        sup = draw(st.one_of(configs(3), st.just(all_[:1]), st.just(list(reversed(all_)))))
        specs.append({"ns": ns, "all": all_, "sup": sup, "form": draw(st.sampled_from(plugs.FORMS)),
                      "cfg": draw(st.sampled_from(sorted(plugs.CONFIGS))), "dist": draw(st.integers(0, 2))})
    feats = [c[0] for s in specs for c in s["all"] + s["sup"]]
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["list", "configs", "configs", "configs", "platform"]))
        if k == "configs":
            ns = draw(st.sampled_from([None, *names, *names, "absent_ns", "", *[n[:-1] for n in names], *[n.upper() for n in names]]))
            f = draw(st.sampled_from([None, None, *feats, "absent_feature", "", *[f[:-1] for f in feats[:2]], *[f.upper() for f in feats[:1]]]))
            ops.append([k, draw(st.sampled_from(["-a", "-s", "--all", "--supported"])), ns, f,
                        draw(st.sampled_from(["short", "long", "eq"]))])
        else:
            ops.append([k])
    return {"specs": specs, "ops": ops}


def view(res):
    return [[ns, [[c.name, list(c.values), c.multi_value] for c in pc.configs]] for ns, pc in res.items()]


def parse_platform(out):
    """Provider headers and `feature :: [values]` lines, as printed."""
    got = []
    for line in out.splitlines():
        if "Provider Config: `" in line:
            got.append([line.split("`")[1], []])
        elif "- Variant Config [" in line:
            num, rest = line.split("- Variant Config [", 1)[1].split("]: ", 1)
            f, vals = rest.split(" :: ", 1)
            expect_eq(int(num), len(got[-1][1]) + 1, "number of the feature")
            got[-1][1].append([f, eval(vals, {"__builtins__": {}})])  # noqa: S307
        else:
            expect(set(line.strip()) <= {"#"}, "unexpected line of analyze-platform", line=line)
    return got


def check_plugins(case, ctx):
    from variantlib.commands.main import main
    from variantlib.plugins.loader import EntryPointPluginLoader

    specs = case["specs"]
    site = site_with_commands(ctx)
    add_plugins(ctx, site, specs)
    tree = wheels.tree(ctx.dir)
    ctx.label(f"plugins={len(specs)}", *{o[0] for o in case["ops"]})
    ctx.nontrivial(len(specs) >= 2)
    with EntryPointPluginLoader() as ldr:
        order = list(ldr.namespaces)
        lib_all, lib_sup = view(ldr.get_all_configs()), view(ldr.get_supported_configs())
    want_all = {s["ns"]: s["all"] for s in specs}
    want_sup = {s["ns"]: s["sup"] for s in specs if s["sup"]}
    expect_eq(sorted(order), sorted(want_all), "namespaces")
    expect_eq(dict((k, v) for k, v in lib_all), want_all, "all configurations")
    expect_eq(dict((k, v) for k, v in lib_sup), want_sup, "supported configurations")
    for op in case["ops"]:
        if op[0] == "list":
            r = cli(main, ["plugins", "list"])
            expect(r.ok, "plugins list fails", result=r)
            expect_eq(r.out, "".join(f"{n}\n" for n in order), "plugins list")
        elif op[0] == "platform":
            r = cli(main, ["analyze-platform"])
            expect(r.ok, "analyze-platform fails", result=r)
            expect_eq(parse_platform(r.out), [[ns, [[f, vs] for f, vs, _ in cs]] for ns, cs in lib_sup], "analyze-platform")
        else:
            _, which, ns, f, style = op
            args = ["plugins", "get-configs", which]
            for short, long, v in (("-n", "--namespace", ns), ("-f", "--feature", f)):
                if v is not None:
                    args += {"short": [short, v], "long": [long, v], "eq": [f"{long}={v}"]}[style]
            r = cli(main, args)
            expect(r.ok, "get-configs fails", args=args, result=r)
            got = json.loads(r.out)
            src = lib_all if which.strip("-")[0] == "a" else lib_sup
            want = [[n, [{"name": c[0], "values": c[1], "multi_value": c[2]} for c in cs if f in (None, c[0])]]
                    for n, cs in src if ns in (None, n)]
            # a namespace without matching features may be listed or not
            expect_eq([[k, v] for k, v in got.items() if v], [x for x in want if x[1]], "get-configs", args=args)
            expect(set(got) <= {x[0] for x in want}, "get-configs lists a namespace not asked for", got=list(got), args=args)
            ctx.label("filtered" if ns or f else "unfiltered")
    # what the commands refuse
    for args in (["plugins", "get-configs"], ["plugins", "get-configs", "-a", "-s"], ["plugins", "nonsense"], ["nonsense"],
                 ["plugins", "list", "junk"], ["analyze-platform", "junk"]):
        r = cli(main, args)
        expect(not r.ok and not r.out, "a wrong command line succeeds", args=args, result=r)
    expect_eq(wheels.tree(ctx.dir), tree, "files after reporting commands")


@st.composite
def case_wheel(draw):
    uni = draw(gen.universe(2, 3, 3))
    doc = draw(docs.info(uni, "index"))
    props = draw(st.one_of(gen.prop_list(gen.all_props(uni), max_size=6)))
    label = "null" if not props else model.variant_hash(props) if draw(st.booleans()) else draw(docs.label_text())
    doc["variants"] = {label: docs.nested(props)}
    namever, base = draw(wheels.base_name())
    free = draw(gen.free_props(8))
    return {"doc": doc, "props": props, "label": label, "base": base, "free": free,
            "extra": draw(st.sampled_from(["", "", "before", "licenses", "broken", "other-label", "missing"])),
            "seps": draw(st.lists(st.sampled_from([" :: ", "::", " ::", ":: "]), min_size=2, max_size=2)),
            "repeat": draw(st.booleans())}


def check_wheel(case, ctx):
    from variantlib.api import get_variant_label
    from variantlib.commands.main import main

    ctx.sys_path([site_with_commands(ctx)])
    props, label = case["props"], case["label"]
    d = ctx.mkdir("w")
    src = d / f"{case['base']}-{label}.whl"
    members = list(SPEC["members"])
    meta = {"name": "pkg-1.0.dist-info/variant.json", "data": json.dumps(case["doc"]).encode().hex()}
    x = case["extra"]
    if x == "before":
        members.insert(0, {"name": "variant.json", "data": "7b7d"})
    if x == "licenses":
        members.insert(0, {"name": "pkg-1.0.dist-info/licenses/variant.json", "data": "7b7d"})
    if x == "broken":
        meta["data"] = "7b"
    if x == "other-label":
        src = d / f"{case['base']}-zz.other.whl"
    if x != "missing":
        members.append(meta)
    wheels.write(src, {**SPEC, "members": members})
    plain = d / f"{case['base']}.whl"
    wheels.write(plain, SPEC)
    tree = wheels.tree(ctx.dir)
    ctx.label(f"extra-{x}", f"n={min(len(props), 6)}")
    ctx.nontrivial(len(props) >= 2)
    r = cli(main, ["analyze-wheel", "-i", src])
    if x in ("broken", "other-label", "missing"):
        expect(not r.ok, "analyze-wheel of a wheel with unusable metadata succeeds", extra=x, result=r)
        expect_eq(r.out, "", "output of a failing analyze-wheel")
    else:
        expect(r.ok, "analyze-wheel fails", result=r)
        lines = r.out.splitlines()
        expect_eq([ln for ln in lines if ln.strip("#")][1:], [" :: ".join(p) for p in sorted(props)], "properties printed")
        expect(f"Variant: `{get_variant_label(VD(props))}`" in lines[0] or f"Variant: `{label}`" in lines[0],
               "label printed", line=lines[0])
    r = cli(main, ["analyze-wheel", "-i", plain])
    expect(r.ok and not r.out, "analyze-wheel of a plain wheel", result=r)
    r = cli(main, ["analyze-wheel", "-i", d / f"missing-{src.name}"])
    expect(not r.ok, "analyze-wheel of a missing file succeeds")
    # hashes
    free = case["free"]
    s1, s2 = case["seps"]
    texts = [f"{p[0]}{s1}{p[1]}{s2}{p[2]}" for p in free]
    args = [a for t in texts for a in ("-p", t)] if case["repeat"] else (["-p", *texts] if texts else [])
    r = cli(main, ["get-variant-hash", *args])
    expect(r.ok, "get-variant-hash fails", args=args, result=r)
    expect_eq(r.out, f"{VD(free).hexdigest}\n", "get-variant-hash")
    expect_eq(r.out, f"{model.variant_hash(free)}\n", "get-variant-hash against the definition")
    for bad in (["-p", *texts, "a::b"], [*args, "-p", "a :: b :: c :: d"], [*args, "-p", "A::b::c"], ["-p"], ["junk"],
                *([[*args, "-p", texts[0]]] if texts else [])):
        r = cli(main, ["get-variant-hash", *bad])
        expect(not r.ok and not r.out, "get-variant-hash accepts wrong properties", args=bad, result=r)
    expect_eq(wheels.tree(ctx.dir), tree, "files after reporting commands")


CHECKS = [
    Check("plugins", case_plugins, check_plugins, 700, 20000,
          "environments with 0-4 plugins in up to three packages and 1-4 listing commands with filters; non-trivial with at "
          "least two plugins"),
    Check("wheels", case_wheel, check_wheel, 1600, 50000,
          "variant and plain wheels, sound or not, and hashes of free properties, through the command line; non-trivial with "
          "at least two properties"),
]
