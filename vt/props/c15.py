"""C15: exactly the enabled providers are queried."""
import os

from hypothesis import strategies as st

from vt import docs, gen, plugs
from vt.core import Check, expect_eq


@st.composite
def marker(draw, depth=2):
    """[text, truth] of an environment marker."""
    if depth == 0 or draw(st.integers(0, 2)):
        t = draw(st.booleans())
        return [draw(st.sampled_from(docs.MARKERS_TRUE if t else docs.MARKERS_FALSE)), t]
    a, b = draw(marker(depth - 1)), draw(marker(depth - 1))
    if draw(st.booleans()):
        return [f"({a[0]}) and ({b[0]})", a[1] and b[1]]
    return [f"({a[0]}) or ({b[0]})", a[1] or b[1]]


@st.composite
def case(draw):
    uni = draw(gen.universe(4, 2, 2, min_ns=2))
    flavour = draw(st.sampled_from(["index", "project"]))
    doc = draw(docs.info(uni, flavour, draw(st.sampled_from([("plugin", "plugin", "aot_plugin", "aot"),
                                                             ("plugin", "aot_plugin"), ("aot_plugin", "aot")]))))
    specs, truth = {}, {}
    for ns, p in doc["providers"].items():
        p.pop("enable-if", None)
        p.pop("optional", None)
        if draw(st.integers(0, 2)) == 0:
            p["optional"] = draw(st.sampled_from([True, True, False]))
        if draw(st.integers(0, 2)) == 0:
            p["enable-if"], truth[ns] = draw(marker())
        specs[ns] = {**draw(plugs.behaviour(ns, uni[ns], single=True)), "byname": draw(st.integers(0, 3)) == 0,
                     "req": draw(st.sampled_from(["vt-plug-%d", "vt_plug_%d >=1", "vt-plug-%d[x]; python_version>'3'",
                                                  "vt_plug_%d @ https://example.com/x.whl", "vt-plug-%d==1.*", "VT-plug_%d >=1"])),
                     "more": draw(st.sampled_from([[], [], ["aaa"], ["vtplug-x", "zzz >=2"], ["json"]]))}
    optional = draw(st.sampled_from([False, True, "list", "list"]))
    names = st.lists(st.sampled_from([*sorted(uni), "other"]), max_size=4, unique=True)
    if optional == "list":
        optional = draw(names)
    return {"doc": doc, "flavour": flavour, "specs": specs, "truth": truth, "optional": optional,
            "filter": draw(st.sampled_from([None, None, "list"])) and draw(names), "aot": draw(st.booleans()),
            "query": draw(st.sampled_from(["all", "supported", "supported", "resolve", "resolve"]))}


def check(case, ctx):
    from variantlib.api import get_variants_by_priority
    from variantlib.plugins.loader import PluginLoader
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variants_json import VariantsJson

    ctx.sys_path([])
    doc, optional = case["doc"], case["optional"]
    d = ctx.mkdir("plugins")
    for i, (ns, s) in enumerate(case["specs"].items()):
        p = doc["providers"][ns]
        p.pop("plugin-api", None)
        if s["byname"] and p.get("requires"):
            # no plugin-api: the first requirement names the module
            s["form"] = "module"
            p["requires"] = [s["req"] % i, *s["more"]]
            plugs.write(d, f"{'VT' if s['req'][:2] == 'VT' else 'vt'}_plug_{i}", s)
        else:
            p["plugin-api"] = plugs.write(d, f"vt_plug_{i}", s)
    log = ctx.dir / "log"
    log.write_text("")
    ctx.setenv("PYTHONPATH", str(d))
    ctx.setenv("VT_PLUGIN_LOG", str(log))
    query = case["query"]
    if query == "resolve":
        case["flavour"], case["filter"], case["aot"] = "index", None, False
        for ns, p in doc["providers"].items():
            if docs.expects_static(p, "index") and ns not in doc.setdefault("static-properties", {}):
                f, vs, _ = case["specs"][ns]["all"][0]
                doc["static-properties"][ns] = {f: vs}
    enabled = {}
    why = set()
    for ns, p in doc["providers"].items():
        aot = not p.get("install-time", True)
        on = bool(p.get("requires")) and (not aot or case["aot"])
        if on and case["filter"] is not None and ns not in case["filter"]:
            on, _ = False, why.add("filtered")
        if on and p.get("optional", False) and not (optional is True or (isinstance(optional, list) and ns in optional)):
            on, _ = False, why.add("optional-off")
        if on and not case["truth"].get(ns, True):
            on, _ = False, why.add("marker-off")
        enabled[ns] = on
    on = [ns for ns, x in enabled.items() if x]
    ctx.label(f"on={len(on)}", f"off={len(enabled) - len(on)}", query, *why)
    ctx.nontrivial(on and len(on) < len(enabled))
    static = {ns: fs for ns, fs in doc.get("static-properties", {}).items() if ns not in on}
    if query == "resolve":
        # one variant per property that may be offered: the answer tells who was believed
        props = [[ns, f, v] for ns, s in case["specs"].items() for f, vs, _ in s["all"] for v in vs]
        vs = {f"l{i}": [p] for i, p in enumerate(props[:40])}
        doc["variants"] = docs.variants_json(vs)
        got = get_variants_by_priority(variants_json=doc, enable_optional_plugins=optional)
        sup = [p for ns in on for p in plugs.flat(ns, case["specs"][ns]["sup"])] + \
            [[ns, f, v] for ns, fs in static.items() for f, x in fs.items() for v in x]
        expect_eq(sorted(got), sorted([k for k, v in vs.items() if v[0] in sup] + ["null"]), "labels offered")
    else:
        vi = VariantsJson({**doc, "variants": {}}) if case["flavour"] == "index" else VariantPyProjectToml({"variant": doc})
        if query == "all" and not case["aot"]:
            query = "supported"
        with PluginLoader(variant_info=vi, enable_optional_plugins=optional, filter_plugins=case["filter"],
                          include_aot_plugins=case["aot"]) as ldr:
            expect_eq(sorted(ldr.namespaces), sorted(on), "namespaces loaded")
            expect_eq(sorted(ldr.plugin_api_values), sorted(on), "namespaces with a plugin")
            got = {ns: {c.name: list(c.values) for c in pc.configs}
                   for ns, pc in (ldr.get_all_configs() if query == "all" else ldr.get_supported_configs()).items()}
        want = {ns: {f: list(vs) for f, vs in fs.items()} for ns, fs in static.items()}
        for ns in on:
            cfg = case["specs"][ns][{"all": "all", "supported": "sup"}[query]]
            if cfg:
                want[ns] = {f: list(vs) for f, vs, _ in cfg}
        expect_eq(got, want, "properties reported")
    lines = set(log.read_text().splitlines())
    asked = {"all": "all", "supported": "supported", "resolve": "supported"}[query]
    expect_eq(sorted(lines), sorted(f"{ns} {w}" for ns in on for w in ("import", asked)), "what the plugins noticed")


CHECKS = [
    Check("decision", case, check, 1700, 40000,
          "documents of 2-4 providers of all kinds with real plugins that log what happens to them; non-trivial when "
          "some provider is enabled and another is not"),
]
