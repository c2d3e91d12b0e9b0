"""C29: variants that are built and indexed are found again."""
import json
import zipfile

from hypothesis import strategies as st

from vt import docs, gen, model, plugs, wheels
from vt.core import Check, expect, expect_eq
from vt.lib import cli
from vt.props.c05 import provider_enabled, put_config
from vt.props.c19 import WHEEL

ABI = "abi_dependency"
PACKAGES = [["torch", "2.5.1", ["2", "2.5", "2.5.1"]], ["numpy", "1.26", ["1", "1.26", "1.26.0"]]]


@st.composite
def case(draw, plugin):
    uni = draw(gen.universe(3, 3, 3))
    doc = draw(docs.info(uni, "project", ("plugin", "aot", "aot") if plugin else ("aot",)))
    specs = {}
    for ns, p in doc["providers"].items():
        p.pop("plugin-api", None)
        if p.get("requires"):
            specs[ns] = draw(plugs.behaviour(ns, uni[ns]))
    good = docs.static_supported(doc) + [q for ns, s in specs.items() for q in plugs.flat(ns, s["sup"])]
    pool = gen.all_props(uni)
    packages = [p for p in PACKAGES if draw(st.integers(0, 2)) == 0]
    build, seen = [], set()
    for _ in range(draw(st.sampled_from([3, 4, 5, 2, 7, 1]))):
        v = draw(gen.prop_list(good or pool, min_size=1, max_size=3))
        if draw(st.integers(0, 2)) == 0:
            v += [q for q in draw(gen.prop_list(pool, max_size=2)) if q not in v]
        if packages and draw(st.integers(0, 2)) == 0:
            n, _v, vs = draw(st.sampled_from(packages))
            v += [[ABI, n, draw(st.sampled_from([*vs, "3"]))]]
        if draw(st.integers(0, 9)) == 0:
            v = []
        label = None if draw(st.booleans()) else draw(docs.label_text()) if v else draw(st.sampled_from([None, "null"]))
        effective = label or (model.variant_hash(v) if v else "null")
        if frozenset(map(tuple, v)) in seen or effective in [b["effective"] for b in build]:
            continue
        seen.add(frozenset(map(tuple, v)))
        build.append({"variant": draw(gen.shuffled(v)), "label": label, "effective": effective,
                      # built for one or two platforms
                      "tags": draw(st.sampled_from([["py3-none-any"], ["cp312-cp312-linux_x86_64"],
                                                    ["py3-none-any", "1-cp312-abi3-win32"]])),
                      "validate": plugin and draw(st.booleans()),
                      "how": draw(st.sampled_from(["-p", "-p", "=", "--property"]))})
    n = sum(len(b["tags"]) for b in build)
    return {"doc": doc, "specs": specs, "build": build, "packages": packages, "adds": draw(gen.shuffled(range(n))),
            "index": draw(st.sampled_from(["generate", "add", "both"])), "plain": draw(st.booleans()),
            "other": draw(st.booleans()), "unmake": draw(st.integers(0, 3)) == 0,
            "config": draw(docs.user_config(uni)) if draw(st.booleans()) else None,
            "optional": draw(st.sampled_from([False, True])), "name": draw(st.sampled_from(["pkg-1.0", "Pkg_x-1!2.0+cu1", "a.b-0"]))}


def check(case, ctx):
    from variantlib.api import check_variant_supported, get_variants_by_priority
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json
    from variantlib.commands.generate_index_json import generate_index_json
    from variantlib.commands.make_variant import make_variant
    from variantlib.commands.unmake_variant import unmake_variant
    from variantlib.variant_dist_info import VariantDistInfo

    ctx.sys_path([])
    doc, specs, namever = case["doc"], case["specs"], case["name"]
    put_config(ctx, case["config"])
    d = ctx.mkdir("plugins")
    for i, (ns, s) in enumerate(specs.items()):
        doc["providers"][ns]["plugin-api"] = plugs.write(d, f"vtplug{i}", s)
    ctx.setenv("PYTHONPATH", str(d))
    if case["packages"]:
        ctx.setenv("VARIANT_ABI_DEPENDENCY", ",".join(f"{n}=={v}" for n, v, _ in case["packages"]))
    src, out = ctx.mkdir("src"), ctx.mkdir("index")
    proj = ctx.dir / "pyproject.toml"
    proj.write_text(docs.toml({"variant": doc}))
    # which variants pass validation is decided by C19; validated ones here use listed properties only
    known = {ns: plugs.flat(ns, s["all"]) for ns, s in specs.items()}
    built = []
    for b in case["build"]:
        for tag in b["tags"]:
            w = src / f"{namever}-{tag}.whl"
            if not w.exists():
                wheels.write(w, {**WHEEL, "di": "pkg-1.0.dist-info"})
            args = ["-f", w, "-o", out, "--pyproject-toml", proj]
            if b["variant"]:
                for p in b["variant"]:
                    args += [f"--property={' :: '.join(p)}"] if b["how"] == "=" else [b["how"], " :: ".join(p)]
            else:
                args.append("--null-variant")
            if b["label"] is not None and b["variant"]:
                args += ["--variant-label", b["label"]]
            listed = all(doc["providers"].get(q[0], {}).get("enable-if") not in docs.MARKERS_FALSE and
                         q in known.get(q[0], []) for q in b["variant"])
            multi = {(f, ns) for ns, s in specs.items() for f, _, m in s["all"] if m}
            single = all((q[1], q[0]) in multi or [r for r in b["variant"] if r[:2] == q[:2]] == [q] for q in b["variant"])
            if not (b["validate"] and listed and single):
                args.append("--skip-plugin-validation")
            args.append("--no-isolation")
            r = cli(make_variant, args)
            expect(r.ok, "make-variant fails", result=r, args=args)
            built.append([f"{namever}-{tag}-{b['effective']}.whl", b])
    expect_eq(sorted(p.name for p in out.iterdir()), sorted(n for n, _ in built), "wheels built")
    if case["plain"]:
        wheels.write(out / f"{namever}-py2-none-any.whl", WHEEL)
    if case["unmake"] and built:
        r = cli(unmake_variant, ["-f", out / built[0][0], "-o", out])
        expect(r.ok, "unmake-variant fails", result=r)
    if case["other"] and built:
        # another version of the project offers less
        (out / built[0][0].replace(namever + "-", namever + "9-", 1)).write_bytes((out / built[0][0]).read_bytes())
    ctx.label(case["index"], f"variants={len(case['build'])}")
    index = out / f"{namever}-variants.json"
    texts = []
    if case["index"] in ("add", "both"):
        work = ctx.mkdir("work")
        for k, i in enumerate(case["adds"]):
            args = ["-f", out / built[i][0], "-o", work]
            if k:
                args += ["-i", work / index.name, "-w"]
            r = cli(add_wheel_to_index_json, args)
            expect(r.ok, "add-wheel-to-index-json fails", result=r)
        if built:
            texts.append((work / index.name).read_text())
    if case["index"] in ("generate", "both"):
        r = cli(generate_index_json, ["-d", out])
        expect(r.ok, "generate-index-json fails", result=r)
        if built:
            texts.append(index.read_text())
    for text in texts:
        expect_eq(text, texts[0], "index made in another way")
    if not texts:
        return
    raw = json.loads(texts[0])
    expect_eq(docs.d_variants(raw), {b["effective"]: sorted(b["variant"]) for b in case["build"]}, "variants in the index")
    # the answer follows from the project's own data; the index lists labels alphabetically
    full = {**doc, "variants": docs.variants_json({b["effective"]: b["variant"] for b in
                                                   sorted(case["build"], key=lambda b: b["effective"])})}
    sup = docs.static_supported(doc)
    for ns, p in doc["providers"].items():
        if p.get("requires") and provider_enabled(ns, p, case["optional"]):
            sup += plugs.flat(ns, specs[ns]["sup"])
    want = docs.resolve(full, sup, case["config"] or (None, None, None), sorted([n, vs] for n, _, vs in case["packages"]))[0]
    want = [labels[0] for labels, _ in want]
    got = get_variants_by_priority(variants_json=raw, enable_optional_plugins=case["optional"])
    offered = [x for x in got if x != "null"]
    ctx.nontrivial(len(offered) >= 2)
    ctx.label(f"offered={min(len(offered), 4)}", "all-offered" if len(offered) == len(case["build"]) else "some-refused")
    expect_eq(got, want, "labels offered for what was built")
    for name, b in built:
        label = b["effective"]
        with zipfile.ZipFile(out / name) as z:
            data = z.read("pkg-1.0.dist-info/variant.json")
        expect_eq(docs.d_variants(json.loads(data)), {label: sorted(b["variant"])}, "variant of the wheel with the label")
        ok = check_variant_supported(variant_info=VariantDistInfo(data, label), enable_optional_plugins=case["optional"])
        expect_eq(ok, label in got, "support of the wheel by itself", label=label)


CHECKS = [
    Check("static", lambda: case(False), check, 1500, 40000,
          "projects with frozen providers, 1-7 variants built with make-variant for several platforms, indexed in both "
          "ways and resolved, installed packages included; non-trivial when at least two built variants are offered"),
    Check("plugins", lambda: case(True), check, 240, 8000,
          "the same with plugins at build and install time"),
]
