"""C16: provider answers are reported faithfully."""
import json
import sys

from hypothesis import strategies as st

from vt import docs, gen, plugs
from vt.core import Check, expect_eq


@st.composite
def configs(draw, hi=4, single=False):
    """[[feature, values, multi]...] with arbitrary names and order."""
    n = draw(gen.sizes(hi, 12))
    feats = draw(st.lists(gen.feat_token(), min_size=n, max_size=n, unique=True))
    out = []
    for f in feats:
        k = draw(gen.sizes(5, 40)) or 1
        vals = draw(st.lists(gen.val_token(), min_size=k, max_size=k, unique=True))
        if draw(st.integers(0, 199)) == 77:
            vals += [f"{i}.{'x' * 50}" for i in range(3000)]
        out.append([f, vals, False if single else draw(st.booleans())])
    return out


@st.composite
def case(draw):
    names = draw(gen.exact(gen.ns_token(), 1, 4))
    specs = []
    loader = draw(st.sampled_from(["info", "info", "list", "entry"]))
    for ns in names:
        all_ = draw(configs().filter(bool))
        related = draw(st.booleans())
        if related:
            sup = [[f, draw(st.permutations(vs).map(lambda x, k=draw(st.integers(1, len(vs))): list(x[:k]))), m]
                   for f, vs, m in draw(gen.shuffled(all_)) if draw(st.integers(0, 3))]
        else:
            sup = draw(configs())
        # the rest of a shared module is a second namespace's plugin
        specs.append({"ns": ns, "all": all_, "sup": sup, "form": draw(st.sampled_from(plugs.FORMS)),
                      "cfg": draw(st.sampled_from(sorted(plugs.CONFIGS))), "aot": draw(st.sampled_from([None, True, False])),
                      "noise": draw(st.sampled_from(["", "", "stderr", "warn", "log"])),
                      "spaced": draw(st.booleans())})
    return {"specs": specs, "loader": loader, "queries": draw(st.lists(
        st.sampled_from(["all", "supported", "fixed", "namespaces"]), min_size=1, max_size=3)),
        "order": draw(gen.shuffled(range(len(specs)))), "entered": draw(st.sampled_from([1, 1, 2]))}


NOISE = {"": "", "stderr": "import sys as _s\nprint('noise', file=_s.stderr)\n",
         "warn": "import warnings\nwarnings.warn('noise')\n",
         "log": "import logging\nlogging.getLogger().error('noise \\u00e9 \\U0001f600')\n"}


def check(case, ctx):
    from variantlib.plugins import loader as L
    from variantlib.pyproject_toml import VariantPyProjectToml

    specs = case["specs"]
    d = ctx.mkdir("plugins")
    apis = {}
    for i, s in enumerate(specs):
        api = plugs.write(d, f"vtplug{i}", s)
        path = d / f"vtplug{i}.py"
        path = path if path.exists() else d / f"vtplug{i}" / "sub.py"
        path.write_text(NOISE[s["noise"]] + path.read_text(), encoding="utf-8")
        apis[s["ns"]] = api.replace(":", " : ") if s["spaced"] and case["loader"] != "entry" else api
    ctx.setenv("PYTHONPATH", f"{d}:/repo")
    order = [specs[i] for i in case["order"]]
    if case["loader"] == "info":
        ctx.sys_path([])
        doc = {"default-priorities": {"namespace": sorted(apis)},
               "providers": {s["ns"]: {"requires": ["x"], "plugin-api": apis[s["ns"]]} for s in order}}
        vi = VariantPyProjectToml({"variant": doc})

        def make():
            return L.PluginLoader(variant_info=vi, include_aot_plugins=True)
    elif case["loader"] == "list":
        ctx.sys_path([])

        def make():
            return L.ListPluginLoader([apis[s["ns"]] for s in order])
    else:
        site = ctx.mkdir("site")
        for s in order:
            di = site / f"dist_{s['ns'][:40].strip('_') or 'x'}{specs.index(s)}-1.0.dist-info"
            di.mkdir()
            (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: dist-{specs.index(s)}\nVersion: 1.0\n")
            (di / "entry_points.txt").write_text(f"[variant_plugins]\nep{specs.index(s)} = {apis[s['ns']]}\n")
        ctx.sys_path([site])

        def make():
            return L.EntryPointPluginLoader()
    norm = {ns: a.replace(" ", "") for ns, a in apis.items()}
    want_all = {s["ns"]: s["all"] for s in specs}
    want_sup = {s["ns"]: s["sup"] for s in specs if s["sup"]}
    ctx.nontrivial(len(specs) > 1 and any(len(s["all"]) > 1 for s in specs))
    ctx.label(case["loader"], f"plugins={len(specs)}", *{"form-" + s["form"] for s in specs},
              *{"config-" + s["cfg"] for s in specs}, *{"query-" + q for q in case["queries"]},
              *(["large"] if any(len(vs) > 1000 for s in specs for _, vs, _ in s["all"] + s["sup"]) else []))

    def view(res):
        return {ns: [[c.name, list(c.values), c.multi_value] for c in pc.configs] for ns, pc in res.items()}

    for _ in range(case["entered"]):
        with make() as ldr:
            for q in case["queries"]:
                if q == "namespaces":
                    expect_eq(sorted(ldr.namespaces), sorted(apis), "namespaces")
                    expect_eq(dict(ldr.plugin_api_values), norm, "plugin references")
                    if case["loader"] == "entry":
                        dists = {api: di.metadata["Name"] for api, di in ldr.plugin_provider_packages.items()}
                        expect_eq(dists, {norm[s["ns"]]: f"dist-{specs.index(s)}" for s in specs}, "provider packages")
                    continue
                if q == "fixed":
                    if not all(s["aot"] for s in specs):
                        continue
                    res, want = ldr.get_supported_configs(require_fixed=True), want_sup
                elif q == "all":
                    res, want = ldr.get_all_configs(), want_all
                else:
                    res, want = ldr.get_supported_configs(), want_sup
                expect_eq({ns: pc.namespace for ns, pc in res.items()}, {ns: ns for ns in want}, "namespaces of the answer")
                expect_eq(json.dumps(view(res), sort_keys=True), json.dumps(want, sort_keys=True), f"answer to {q}")
                props = sorted([p.namespace, p.feature, p.value] for pc in res.values() for p in pc.to_list_of_properties())
                expect_eq(props, sorted([ns, f, v] for ns, cs in want.items() for f, vs, _ in cs for v in vs),
                          "list of properties")


CHECKS = [
    Check("answers", case, check, 900, 24000,
          "1-4 real plugins of every form and configuration style, arbitrary features and values, queried through the "
          "three loaders; non-trivial with several plugins, one of them with several features"),
]
