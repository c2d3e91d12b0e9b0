"""C05: index resolution returns the right labels in the right order."""
import json
import os

from hypothesis import strategies as st

from vt import docs, gen, plugs
from vt.core import Check, expect, expect_eq


@st.composite
def index_case(draw, kinds=("aot", "aot_plugin"), big=True):
    if big and draw(st.integers(0, 9)) == 9:
        uni = draw(gen.universe(5, 5, 6))
    else:
        uni = draw(gen.universe(3, 3, 4))
    doc = draw(docs.info(uni, "index", kinds))
    pool = gen.all_props(uni)
    good = docs.static_supported(doc)
    vs: dict = {}
    seen = set()
    n = draw(st.sampled_from([5, 7, 10, 14, 1, 0]))
    null_at = draw(st.integers(-n - 1, n))
    for i in range(n + 1):
        if i == null_at:
            vs["null"] = []
        if i == n:
            break
        v = draw(gen.prop_list(good or pool, min_size=1, max_size=4))
        if draw(st.integers(0, 2)) == 0:
            v = v + [p for p in draw(gen.prop_list(pool, max_size=2)) if p not in v]
        if draw(st.integers(0, 11)) == 0:
            v = v + [[draw(gen.ns_token()), "f", "1"]]
        k = frozenset(map(tuple, v))
        if not v or k in seen or len(k) != len(v):
            continue
        seen.add(k)
        from vt import model

        label = model.variant_hash(v) if draw(st.booleans()) else draw(docs.label_text())
        if label not in vs:
            vs[label] = v
    doc["variants"] = docs.variants_json(vs)
    s = draw(docs.schema_key())
    if s:
        doc["$schema"] = s
    config = draw(docs.user_config(uni)) if draw(st.integers(0, 4)) else None
    return uni, doc, config


@st.composite
def case_static(draw):
    _uni, doc, config = draw(index_case())
    return {"doc": doc, "config": config, "where": draw(st.sampled_from(["local", "user", "global"])),
            "input": draw(st.sampled_from(["dict", "object", "text", "rewritten"])),
            "optional": draw(st.sampled_from([False, True, []]))}


def put_config(ctx, config, where="local"):
    """Write the user configuration of a case (and enter the case's directory)."""
    d = ctx.mkdir("cwd")
    ctx.chdir(d)
    if config is None:
        return
    path = {"local": d / "variants.toml", "user": ctx.dir / "cfg" / "variantlib" / "variants.toml",
            "global": ctx.dir / "etc" / "variantlib" / "variants.toml"}[where]
    ctx.setenv("XDG_CONFIG_HOME", str(ctx.dir / "cfg"))
    ctx.setenv("XDG_CONFIG_DIRS", str(ctx.dir / "etc"))
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text(docs.config_toml(*config))


def expect_labels(got, want, msg, **info):
    """Labels best first; ties keep the order of the index."""
    expect(isinstance(got, list), f"{msg}: not a list", got=got)
    expect_eq(got, [labels[0] for labels, _ in want], msg, **info)


def check_static(case, ctx):
    from variantlib.api import get_variants_by_priority
    from variantlib.variants_json import VariantsJson

    ctx.sys_path([])
    doc, config = case["doc"], case["config"]
    put_config(ctx, config, case["where"])
    want, ordered = docs.resolve(doc, docs.static_supported(doc), config or (None, None, None))
    labels = [x[0][0] for x in want]
    listed = [k for k in doc["variants"] if k in labels]
    ctx.nontrivial(len(labels) >= 3 and listed != [x for x in labels if x in doc["variants"]])
    ctx.label("reordered" if listed != [x for x in labels if x in doc["variants"]] else "in-order",
              "config" if config else "no-config", f"kept={min(len(labels), 6)}",
              "filtered" if len(labels) < len(doc["variants"]) else "all-kept")
    inp = {"dict": lambda: doc, "object": lambda: VariantsJson(doc),
           "text": lambda: json.loads(json.dumps(doc)),
           "rewritten": lambda: json.loads(VariantsJson(doc).to_str())}[case["input"]]()
    if case["input"] == "rewritten":
        # the text is sorted by key: the order of provider features and of ties may change with it
        want, _ = docs.resolve(inp, docs.static_supported(inp), config or (None, None, None))
    got = get_variants_by_priority(variants_json=inp, enable_optional_plugins=case["optional"])
    expect_labels(got, want, "labels, best first", ordered=ordered)


@st.composite
def case_plugins(draw):
    uni, doc, config = draw(index_case(("plugin", "plugin", "aot", "aot_plugin"), big=False))
    # markers/optional/api are redrawn so that all combinations are frequent
    specs = {}
    for i, ns in enumerate(doc.get("providers", {})):
        p = doc["providers"][ns]
        if not p.get("requires"):
            continue
        spec = draw(plugs.behaviour(ns, uni[ns]))
        specs[ns] = spec
        for k in ("optional", "enable-if", "plugin-api"):
            p.pop(k, None)
        if draw(st.integers(0, 3)) == 0:
            p["optional"] = True
        if draw(st.integers(0, 3)) == 0:
            p["enable-if"] = draw(st.sampled_from(docs.MARKERS_TRUE + docs.MARKERS_FALSE))
    optional = draw(st.sampled_from([False, True, "list"]))
    if optional == "list":
        optional = [x[0] for x in draw(gen.prop_list([[n] for n in uni], max_size=len(uni)))]
    # favour supported properties
    sup = docs.static_supported(doc) + [p for ns, s in specs.items() for p in plugs.flat(ns, s["sup"])]
    from vt import model

    for _ in range(draw(st.integers(0, 4))):
        v = draw(gen.prop_list(sup, min_size=1, max_size=3))
        if v and not any(sorted(v) == sorted(docs.flatten(x)) for x in doc["variants"].values()):
            doc["variants"].setdefault(model.variant_hash(v), docs.nested(v))
    return {"doc": doc, "config": config, "specs": specs, "optional": optional}


def provider_enabled(ns, p, optional):
    if p.get("optional", False) and not (optional is True or (isinstance(optional, list) and ns in optional)):
        return False
    return p.get("enable-if") not in docs.MARKERS_FALSE


def install_plugins(ctx, doc, specs):
    d = ctx.mkdir("plugins")
    for i, (ns, spec) in enumerate(specs.items()):
        doc["providers"][ns]["plugin-api"] = plugs.write(d, f"vtplug{i}", spec)
    ctx.setenv("PYTHONPATH", str(d))


def supported_now(doc, specs, optional):
    """Reference: supported properties at install time."""
    out = []
    for ns, p in doc.get("providers", {}).items():
        if p.get("install-time", True):
            if provider_enabled(ns, p, optional):
                out += plugs.flat(ns, specs[ns]["sup"])
        else:
            out += [[ns, f, v] for f, vs in doc["static-properties"][ns].items() for v in vs]
    return out


def check_plugins(case, ctx):
    from variantlib.api import get_variants_by_priority

    ctx.sys_path([])
    doc, config, specs = case["doc"], case["config"], case["specs"]
    put_config(ctx, config)
    install_plugins(ctx, doc, specs)
    sup = supported_now(doc, specs, case["optional"])
    want, ordered = docs.resolve(doc, sup, config or (None, None, None))
    labels = [x[0][0] for x in want]
    ctx.nontrivial(len(labels) >= 3 and any(p.get("install-time", True) for p in doc.get("providers", {}).values()))
    ctx.label(f"kept={min(len(labels), 6)}", f"optional={type(case['optional']).__name__}",
              "filtered" if len(labels) < len(doc["variants"]) else "all-kept")
    got = get_variants_by_priority(variants_json=doc, enable_optional_plugins=case["optional"])
    expect_labels(got, want, "labels, best first, with plugins", ordered=ordered)


@st.composite
def case_packages(draw):
    """Frozen providers and installed packages; priorities settle the order of all package properties."""
    from vt import model
    from vt.props import c07

    uni, doc, config = draw(index_case(big=False))
    dirs, pool, _ = draw(c07.dists())
    env = None
    if draw(st.booleans()) or not any(dirs):
        env = []
        for _ in range(draw(st.integers(1, 3))):
            v = draw(c07.version())
            name = draw(st.sampled_from(pool))
            env.append({"text": f"{name}=={v[0]}", "name": name, "version": v})
    eff = c07.effective(dirs, env)
    abi_props = [[c07.NS, f, v] for f, vs in eff.items() for v in vs]
    config = config or draw(docs.user_config(uni))
    ns, feat, prop = config
    where = draw(st.sampled_from(["default", "first", "any", "any"]))
    if where != "default":
        ns = [x for x in (ns or []) if x != c07.NS]
        ns.insert(0 if where == "first" else draw(st.integers(0, len(ns))), c07.NS)
        if draw(st.booleans()):
            ns += [x for x in uni if x not in ns]
    order = draw(gen.shuffled(eff))
    if draw(st.booleans()):
        feat = {**(feat or {}), c07.NS: order}
    else:
        doc.setdefault("default-priorities", {"namespace": []}).setdefault("feature", {})[c07.NS] = order
    table = {f: draw(gen.shuffled(vs)) for f, vs in eff.items()}
    if draw(st.booleans()):
        prop = {**(prop or {}), c07.NS: table}
    else:
        doc.setdefault("default-priorities", {"namespace": []}).setdefault("property", {})[c07.NS] = table
    sup = docs.static_supported(doc)
    vs = {k: docs.flatten(x) for k, x in doc["variants"].items()}
    for _ in range(draw(st.integers(1, 5))):
        v = draw(gen.prop_list(abi_props or sup, min_size=1, max_size=2))
        v = v + [p for p in draw(gen.prop_list(sup, max_size=2)) if p not in v]
        if draw(st.integers(0, 9)) == 0:
            v = v + [[c07.NS, "absent_pkg", "1"]]
        if v and not any(sorted(v) == sorted(y) for y in vs.values()):
            vs.setdefault(model.variant_hash(v), v)
    doc["variants"] = docs.variants_json({k: vs[k] for k in draw(gen.shuffled(vs))})
    return {"doc": doc, "config": [ns, feat, prop], "dirs": dirs, "env": env}


def check_packages(case, ctx):
    from variantlib.api import get_variants_by_priority
    from vt.props import c07

    eff = c07.setup(case, ctx)
    doc, config = case["doc"], case["config"]
    put_config(ctx, config)
    want, ordered = docs.resolve(doc, docs.static_supported(doc), config, list(eff.items()))
    labels = [x[0][0] for x in want]
    with_pkg = [k for k in labels if c07.NS in doc["variants"].get(k, {})]
    ctx.nontrivial(len(labels) >= 3 and 0 < len(with_pkg) < len(labels) - 1)
    ctx.label(f"packages={min(len(eff), 4)}", "config-abi" if c07.NS in (config[0] or []) else "default-abi")
    got = get_variants_by_priority(variants_json=doc)
    expect_labels(got, want, "labels, best first, with installed packages", ordered=ordered)


CHECKS = [
    Check("static", case_static, check_static, 5000, 150000,
          "index documents whose providers are frozen, user configuration; non-trivial when at least 3 labels "
          "are offered in an order different from that of the document"),
    Check("plugins", case_plugins, check_plugins, 560, 12000,
          "index documents with real plugins queried in a subprocess; non-trivial when at least 3 labels are "
          "offered and a provider is queried at install time"),
    Check("packages", case_packages, check_packages, 1500, 40000,
          "frozen providers and installed packages whose namespace the user may rank anywhere; non-trivial when "
          "labels with and without package properties are offered"),
]
