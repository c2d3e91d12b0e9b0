"""C20: ahead-of-time providers are frozen faithfully into wheel metadata."""
import json
import sys

from hypothesis import strategies as st

from vt import docmodel, docs, gen, model, plugs, wheels
from vt.core import Check, expect, expect_eq
from vt.lib import VD, cli, fake_isolation
from vt.props.c19 import WHEEL


@st.composite
def case(draw):
    uni = draw(gen.universe(3, 3, 3))
    flavour = draw(st.sampled_from(["project", "project", "project", "wheel", "index"]))
    doc = draw(docs.info(uni, flavour, draw(st.sampled_from([("aot_plugin",), ("aot_plugin", "aot_plugin", "aot", "plugin")]))))
    specs, sup = {}, docs.static_supported(doc)
    for ns, p in doc["providers"].items():
        if not p.get("requires"):
            continue
        aot = not p.get("install-time", True)
        b = draw(plugs.behaviour(ns, uni[ns], single=aot).filter(lambda b, a=aot: b["sup"] or not a))
        # install-time providers are not frozen, whatever they say of themselves
        b["aot"] = True if aot else draw(st.sampled_from([True, False, None]))
        if aot and draw(st.integers(0, 3)) and p.get("enable-if") in docs.MARKERS_FALSE:
            p.pop("enable-if")
        specs[ns] = b
        # a recorded list is replaced by the plugin's current one
        sup = [q for q in sup if q[0] != ns] + plugs.flat(ns, b["sup"])
    aots = [ns for ns in specs if not doc["providers"][ns].get("install-time", True)]
    fault = draw(st.sampled_from([""] * 9 + ["not-fixed", "multi", "empty", "unsupported", "missing"])) if aots else ""
    who = draw(st.sampled_from(aots)) if aots else None
    if fault == "not-fixed":
        specs[who]["aot"] = draw(st.sampled_from([None, False]))
    elif fault == "multi":
        specs[who]["sup"][draw(st.integers(0, len(specs[who]["sup"]) - 1))][2] = True
    elif fault == "empty":
        specs[who]["sup"] = []
        sup = [q for q in sup if q[0] != who]
    # usually every frozen provider is used
    v = []
    use = aots if draw(st.integers(0, 2)) else [x[0] for x in draw(gen.prop_list([[a] for a in aots], max_size=len(aots)))]
    for ns in use:
        mine = [q for q in sup if q[0] == ns]
        v += draw(gen.prop_list(mine, min_size=1, max_size=3))
    v += [q for q in draw(gen.prop_list(sup, max_size=2)) if q not in v]
    if fault == "unsupported" or (fault and not any(q[0] == who for q in v)):
        v.append([who, draw(gen.feat_token()), draw(gen.val_token())] if draw(st.booleans()) else
                 [who, specs[who]["all"][0][0], draw(gen.val_token())])
    v = draw(gen.shuffled([q for i, q in enumerate(v) if q not in v[:i]]))
    # one value per feature, unless a fault asks for more
    if not fault and draw(st.integers(0, 4)):
        v = [q for i, q in enumerate(v) if q[:2] not in [x[:2] for x in v[:i]]]
    return {"doc": doc, "flavour": flavour, "specs": specs, "fault": fault, "who": who, "variant": v,
            "label": draw(st.none() | docs.label_text()) if v else None,
            "expand": draw(st.integers(0, 7)) > 0, "how": draw(st.sampled_from(["api", "api", "python", "cli", "isolated"]))}


KNOWN_UNUSED = "unused-aot-plugin"


def check(case, ctx):
    from variantlib.api import check_variant_supported, get_variants_by_priority, make_variant_dist_info
    from variantlib.commands.make_variant import make_variant
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    ctx.sys_path([])
    ctx.chdir(ctx.mkdir("cwd"))
    doc, v, specs, how = case["doc"], case["variant"], case["specs"], case["how"]
    d, d2 = ctx.mkdir("plugins"), ctx.mkdir("later")
    for i, (ns, s) in enumerate(specs.items()):
        if case["fault"] == "missing" and ns == case["who"]:
            doc["providers"][ns]["plugin-api"] = "vtplug_missing:x"
            continue
        doc["providers"][ns]["plugin-api"] = plugs.write(d, f"vtplug{i}", s)
        if doc["providers"][ns].get("install-time", True):
            plugs.write(d2, f"vtplug{i}", s)
    used = {p[0] for p in v}
    frozen = [ns for ns, p in doc["providers"].items() if ns in used and p.get("requires") and not p.get("install-time", True)]
    if how in ("cli", "isolated") and (case["flavour"] != "project" or not case["expand"] or not v):
        how = "api"
    expand = case["expand"]
    # reference
    want = {"common": docs.d_common(doc), "variants": {}}
    err = ""
    if expand:
        for ns in frozen:
            s = specs[ns]
            if doc["providers"][ns].get("enable-if") in docs.MARKERS_FALSE:
                cfg = [[f, vs, False] for f, vs in doc.get("static-properties", {}).get(ns, {}).items()]
            else:
                cfg = s["sup"]
                if case["fault"] == "missing" and ns == case["who"]:
                    err = "missing"
                if not s["aot"]:
                    err = "not fixed"
            if any(m for _, _, m in cfg):
                err = err or "multi-value"
            have = {f: list(vs) for f, vs, _ in cfg}
            if any(p[0] == ns and p[2] not in have.get(p[1], []) for p in v):
                err = err or "unsupported"
            want["common"]["static"][ns] = have
            if len(cfg) > 1:
                lst = want["common"]["feature"].setdefault(ns, [])
                lst += [f for f in have if f not in lst]
    label = case["label"] if case["label"] is not None else (model.variant_hash(v) if v else "null")
    want["variants"][label] = sorted(v)
    ctx.label(how, "frozen" if frozen else "nothing-frozen", f"refused-{err}" if err else "made",
              "expand" if expand else "no-expand", case["flavour"])
    ctx.nontrivial(bool(frozen) and expand)
    full = {**doc, "variants": {"null": {}}}
    vi = {"project": lambda: VariantPyProjectToml({"variant": doc}), "index": lambda: VariantsJson(full),
          "wheel": lambda: VariantDistInfo(json.dumps(full))}[case["flavour"]]()
    py = None
    if how in ("python", "isolated"):
        # the plugins exist only for another interpreter
        py = ctx.dir / "python"
        py.write_text(f"#!/bin/sh\nPYTHONPATH={d} exec {sys.executable} -S \"$@\"\n")
        py.chmod(0o755)
    else:
        ctx.setenv("PYTHONPATH", str(d))
    if how in ("api", "python"):
        try:
            text = make_variant_dist_info(VD(v), vi, variant_label=case["label"], expand_aot_plugin_properties=expand,
                                          venv_python_executable=py)
        except Exception as exc:
            expect(err, "making the metadata fails", error=repr(exc))
            return
    else:
        src, out = ctx.dir / "pkg-1.0-py3-none-any.whl", ctx.mkdir("out")
        wheels.write(src, WHEEL)
        proj = ctx.dir / "pyproject.toml"
        proj.write_text(docs.toml({"variant": doc}))
        args = ["-f", src, "-o", out, "--pyproject-toml", proj]
        for p in v:
            args += ["-p", " :: ".join(p)]
        if case["label"] is not None:
            args += ["--variant-label", case["label"]]
        if how == "isolated":
            fake_isolation(ctx, py, [])
        else:
            args += ["--no-isolation", "--skip-plugin-validation"]
        r = cli(make_variant, args)
        if how == "isolated" and not r.ok:
            # validation happens first, and may refuse more
            from vt.props.c19 import configs

            cfg = configs(case)
            bad = any(p[0] not in cfg or p[2] not in cfg[p[0]].get(p[1], ([], 0))[0] for p in v) or any(
                p[:2] == q[:2] and p != q and not cfg[p[0]].get(p[1], ([], 1))[1] for p in v for q in v)
            expect(err or bad, "make-variant fails", result=r)
            return
        if not r.ok:
            expect(err, "make-variant fails", result=r)
            return
        expect(not err, "make-variant must be refused", why=err)
        text = next(data for n, data, _ in wheels.read(out / f"pkg-1.0-py3-none-any-{label}.whl")
                    if n.endswith("/variant.json")).decode()
    expect(not err, "metadata made although they must be refused", why=err, text=text)
    raw = json.loads(text)
    expect_eq(docs.d_variants(raw), want["variants"], "variant in the metadata")
    got = docs.d_common(raw)
    # values in provider order; which feature comes first is recorded by the feature priorities
    expect_eq(got, want["common"], "metadata made", variant=v)
    expect(raw.get("$schema"), "schema missing")
    if not expand:
        return
    # it is what every consumer accepts, and it works without the frozen plugins
    unused = [ns for ns, p in doc["providers"].items() if ns not in used and p.get("requires")
              and not p.get("install-time", True) and ns not in raw.get("static-properties", {})]
    if unused:
        # known finding: see known_findings.txt; everything else of the document has to be right
        ctx.label("unused-frozen-provider")
        try:
            VariantDistInfo(text)
        except Exception as exc:
            ctx.finding("C20", KNOWN_UNUSED, f"metadata made are rejected by their own parser: {exc!r}; {text}")
        for ns in unused:
            del raw["providers"][ns]
            raw["default-priorities"]["namespace"].remove(ns)
        text = json.dumps(raw)
    expect_eq(docmodel.verdict(raw, "wheel", label), "good", "well-formedness of the metadata", raw=raw)
    vdi = VariantDistInfo(text, label)
    ctx.setenv("PYTHONPATH", str(d2))
    sup = docs.static_supported(raw)
    for ns, p in raw["providers"].items():
        if p.get("install-time", True) and not p.get("optional") and p.get("enable-if") not in docs.MARKERS_FALSE:
            sup += plugs.flat(ns, specs[ns]["sup"])
    ok = all(p in sup for p in v)
    expect_eq(check_variant_supported(variant_info=vdi), ok, "support of the variant without the plugins")
    expect_eq(get_variants_by_priority(variants_json=json.loads(text)), ([label] if ok and v else []) + ["null"],
              "resolution without the plugins")


FIXED = [{
    "doc": {"default-priorities": {"namespace": ["a", "b"]}, "providers": {
        "a": {"requires": ["x"], "install-time": False}, "b": {"requires": ["y"], "install-time": False}}},
    "flavour": "project", "specs": {ns: {"ns": ns, "all": [["f", ["1"], False]], "sup": [["f", ["1"], False]],
                                         "form": "class", "aot": True} for ns in "ab"},
    "fault": "", "who": None, "variant": [["a", "f", "1"]], "label": None, "expand": True, "how": "api"}, {
    # recorded properties of a plugin that supports nothing anymore
    "doc": {"default-priorities": {"namespace": ["a"]}, "static-properties": {"a": {"f": ["1"]}},
            "providers": {"a": {"requires": ["x"], "install-time": False}}},
    "flavour": "wheel", "specs": {"a": {"ns": "a", "all": [["f", ["1"], False]], "sup": [], "form": "class", "aot": True}},
    "fault": "empty", "who": "a", "variant": [["a", "f", "1"]], "label": None, "expand": True, "how": "api"}]

CHECKS = [
    Check("freeze", case, check, 1400, 36000,
          "metadata, variants and ahead-of-time plugins, sound and unsound, through the API, another interpreter and "
          "make-variant; non-trivial when a provider is frozen", fixed=FIXED),
]
