"""C27: answers do not depend on the hash seed, on directory listing order or on incidental input order."""
import json
import pathlib
import random

from hypothesis import strategies as st

from vt import det, docs, gen, model, plugs, wheels
from vt.core import Check, expect, expect_eq
from vt.lib import VD, VP, cli, unD, unP
from vt.props import c07
from vt.props.c05 import index_case
from vt.props.c12 import build as build_wheel

SEEDS = [1, 2, 77, 4242]        # hash seeds of the processes


# -- operations, run in every process ----------------------------------------------

def run_op(op, d, ctx):
    try:
        return OPS[op["op"]](op, d, ctx)
    except Exception as exc:  # noqa: BLE001
        from vt.core import HarnessError, is_resource_error

        if is_resource_error(exc):
            raise HarnessError(str(exc)) from exc
        return {"error": type(exc).__name__}


def op_serialize(op, d, ctx):
    from variantlib.variants_json import VariantsJson

    vj = VariantsJson(op["doc"])
    return [vj.to_str(), {k: [unD(v), v.hexdigest, str(v.pretty_print() if hasattr(v, "pretty_print") else "")]
                          for k, v in sorted(vj.variants.items())},
            sorted(vj.get_provider_requires())]


def op_resolve(op, d, ctx):
    from variantlib.api import get_variants_by_priority

    ctx.sys_path([d / x for x in op["sites"]])
    ctx.setenv("VARIANT_ABI_DEPENDENCY", op["env"])
    ctx.setenv("PYTHONPATH", str(d / "plugins"))
    ctx.chdir(d / "cwd")
    return get_variants_by_priority(variants_json=op["doc"], enable_optional_plugins=op["optional"])


def op_sorted(op, d, ctx):
    from variantlib.resolver.lib import filter_variants, sort_and_filter_supported_variants
    from variantlib.resolver.sorting import sort_variant_properties

    sup = [VP(p) for p in op["supported"]]
    vs = [VD(v) for v in op["variants"]]
    kw = {"namespace_priorities": op["ns"], "feature_priorities": op["feat"], "property_priorities": op["prop"]}
    return [[unP(p) for p in sort_variant_properties(sup, *kw.values())],
            [unD(v) for v in sort_and_filter_supported_variants(vs, sup, **kw)],
            [unD(v) for v in filter_variants(vs, sup)]]


def op_abi(op, d, ctx):
    from variantlib.resolver.lib import inject_abi_dependency

    ctx.sys_path([d / x for x in op["sites"]])
    ctx.setenv("VARIANT_ABI_DEPENDENCY", op["env"])
    sup, ns = [], list(op["ns"])
    inject_abi_dependency(sup, ns)
    return [[unP(p) for p in sup], ns]


def op_dist_info(op, d, ctx):
    from variantlib.api import make_variant_dist_info
    from variantlib.pyproject_toml import VariantPyProjectToml

    ctx.sys_path([])
    ctx.setenv("PYTHONPATH", str(d / "plugins"))
    pp = VariantPyProjectToml({"variant": op["doc"]} if op["doc"] else {})
    return make_variant_dist_info(VD(op["variant"]), pp, expand_aot_plugin_properties=op["expand"])


def op_hash(op, d, ctx):
    from variantlib.commands.get_variant_hash import get_variant_hash

    args = ["-p", *map(model.prop_str, op["variant"])] if op["variant"] else ["--null-variant"]
    r = cli(get_variant_hash, args)
    return [r.ok, r.out]


def op_generate(op, d, ctx):
    import shutil

    from variantlib.commands.generate_index_json import generate_index_json

    w = ctx.mkdir("wheels")
    for p in sorted((d / "wheels").iterdir(), key=lambda p: p.name):
        shutil.copy(p, w / p.name)
    r = cli(generate_index_json, ["-d", w])
    return [r.ok, {p.name: p.read_text() for p in sorted(w.glob("*.json"), key=lambda p: p.name)}]


def op_validate(op, d, ctx):
    from variantlib.api import validate_variant
    from variantlib.variants_json import VariantsJson

    ctx.sys_path([])
    ctx.setenv("PYTHONPATH", str(d / "plugins"))
    r = validate_variant(VD(op["variant"]), VariantsJson(op["doc"]))
    return [[[unP(p), x] for p, x in r.results.items()],
            sorted([f.namespace, f.feature] for f in r.multi_value_violations),
            [unP(p) for p in r.invalid_properties], [unP(p) for p in r.unknown_properties]]


def op_config(op, d, ctx):
    from variantlib.configuration import VariantConfiguration

    ctx.chdir(d / "cwd")
    c = VariantConfiguration.get_config()
    return [list(c.namespace_priorities), [[k, list(v)] for k, v in c.feature_priorities.items()],
            [[k, [[f, list(x)] for f, x in v.items()]] for k, v in c.property_priorities.items()]]


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


# -- processes ----------------------------------------------------------------------

_drivers: list = []


def drivers(ctx):
    if not _drivers:
        for i, s in enumerate(SEEDS):
            _drivers.append(det.Driver(ctx.base / f"driver{i}", s))
    return _drivers


def compare(case, ctx, ops):
    """Same bytes from every process; returns the outputs."""
    outs = []
    for i, dr in enumerate(drivers(ctx)):
        outs.append(dr.ask({"dir": str(ctx.dir), "order": case["order"] + i, "ops": ops}))
    for i, out in enumerate(outs[1:]):
        for op, a, b in zip(ops, outs[0], out, strict=True):
            expect(a == b and json.dumps(a) == json.dumps(b),
                   f"{op['op']}: answers of two processes differ (hash seeds {SEEDS[0]} and {SEEDS[i + 1]})",
                   first=a, second=b)
    return outs[0]


# -- generated inputs -----------------------------------------------------------------

def permuted(x, rng, deep=True):
    """The same JSON object with its keys in another order."""
    if isinstance(x, dict):
        keys = list(x)
        rng.shuffle(keys)
        return {k: permuted(x[k], rng, deep) if deep else x[k] for k in keys}
    return x


def permute_doc(doc, rng):
    """Another spelling of the same index: only the order of features under static-properties carries meaning."""
    out = permuted(doc, rng, deep=False)
    for k in ("providers", "variants", "default-priorities"):
        if k in out:
            out[k] = permuted(out[k], rng)
    if "static-properties" in out:
        out["static-properties"] = permuted(out["static-properties"], rng, deep=False)
    if "variants" in out:
        for fs in out["variants"].values():
            for f in fs.values():
                for v in f.values():
                    rng.shuffle(v)
    return out


@st.composite
def case_docs(draw):
    _uni, doc, config = draw(index_case())
    dirs, pool, _ = draw(c07.dists())
    env = draw(st.sampled_from([None, None, "foo==1.2.3,torch==2", ",".join(f"{n}==3.1" for n in pool)]))
    # variants depending on packages that may be there
    names = sorted({n for n in map(c07.norm, pool) if n})
    versions = sorted({m for es in dirs for e in es if not e["bad"] for m in c07.matches(e["version"])} | {"3.1", "2"})
    for _ in range(draw(st.integers(0, 3))):
        v = [["abi_dependency", draw(st.sampled_from(names or ["foo"])), draw(st.sampled_from(versions))]]
        v += draw(gen.prop_list(docs.static_supported(doc), max_size=2))
        doc["variants"].setdefault(model.variant_hash(v), docs.nested(v))
    return {"doc": doc, "config": config, "dirs": dirs, "env": env, "order": draw(st.integers(0, 2**20)),
            "optional": draw(st.booleans())}


def check_docs(case, ctx):
    doc, rng = case["doc"], random.Random(case["order"])
    c07.build(ctx, case["dirs"])
    cwd = ctx.mkdir("cwd")
    if case["config"]:
        (cwd / "variants.toml").write_text(docs.config_toml(*case["config"]))
    sites = [f"site{i}" for i in range(len(case["dirs"]))]
    flat = {k: docs.flatten(v) for k, v in doc["variants"].items()}
    sup = docs.static_supported(doc)
    ns, feat, prop = docs.d_prios(doc)
    # the same property may be supported for several reasons, and priorities may be incomplete
    for p in rng.sample(sup, min(len(sup), rng.randint(0, 2))):
        at = max(i for i, x in enumerate(sup) if x[:2] == p[:2]) + 1
        sup = [*sup[:at], p, *sup[at:]]
    given_feat, given_prop = rng.choice([(feat, prop), (feat, prop), (feat, {}), ({}, prop), ({}, {})])
    longest = max(flat.values(), key=len, default=[])
    other = permute_doc(doc, rng)
    swapped = rng.sample(longest, len(longest))
    common = {"sites": sites, "env": case["env"], "optional": case["optional"]}
    ops = [{"op": "serialize", "doc": doc}, {"op": "serialize", "doc": other},
           {"op": "hash", "variant": longest}, {"op": "hash", "variant": swapped},
           {"op": "resolve", "doc": doc, **common}, {"op": "resolve", "doc": other, **common},
           {"op": "abi", "ns": ns, **common}, {"op": "config"},
           {"op": "sorted", "supported": sup, "variants": list(flat.values()), "ns": ns, "feat": given_feat,
            "prop": given_prop},
           {"op": "dist_info", "doc": {}, "variant": longest, "expand": False},
           {"op": "dist_info", "doc": {}, "variant": swapped, "expand": False}]
    out = compare(case, ctx, ops)
    errors = sum(isinstance(x, dict) for x in out)
    ctx.nontrivial(len(flat) >= 3 and len(longest) >= 2 and not errors)
    ctx.label(f"variants={min(len(flat), 6)}", f"sites={len(sites)}", f"errors={errors}",
              "packages" if out[6] and not isinstance(out[6], dict) and out[6][0] else "no-packages")
    expect(not errors, "an operation failed", out=out)
    expect_eq(out[1][0], out[0][0], "serialized index and the one of its reordered spelling")
    expect_eq(out[1], out[0], "index and its reordered spelling")
    expect_eq(out[3], out[2], "hash printed for reordered properties")
    expect_eq(out[10], out[9], "metadata of reordered properties")
    # reordering changes the resolution only among equals
    packages: dict = {}
    for _, f, v in out[6][0]:
        packages.setdefault(f, []).append(v)
    want, _ = docs.resolve(doc, docs.static_supported(doc), case["config"] or (None, None, None), list(packages.items()))
    rank = {labels[0]: r for labels, r in want}
    alias = {x: labels[0] for labels, _ in want for x in labels}
    for got in (out[4], out[5]):
        expect(all(x in alias for x in got) and sorted(alias[x] for x in got) == sorted(rank),
               "labels offered", got=got, want=want)
        ranks = [rank[alias[x]] for x in got]
        expect_eq(ranks, sorted(ranks), "ranks of the labels offered", got=got)


@st.composite
def case_wheels(draw):
    uni = draw(gen.universe(3, 3, 3))
    base = draw(docs.info(uni, "index", foreign=False))
    pool = gen.all_props(uni)
    packages = draw(st.lists(wheels.base_name(), min_size=1, max_size=2, unique_by=lambda x: x[0]))
    files, used, labels = [], set(), {}
    for _ in range(draw(st.integers(2, 7))):
        _nv, full = draw(st.sampled_from(packages))
        v = draw(gen.prop_list(pool, max_size=4))
        label = "null" if not v else draw(st.sampled_from([model.variant_hash(v), model.variant_hash(v), "l1", "l2"]))
        name = f"{full}-{label}.whl"
        if name in used:
            continue
        used.add(name)
        doc = dict(base)
        if draw(st.integers(0, 3)) == 0 and doc.get("default-priorities"):
            doc["default-priorities"] = {**doc["default-priorities"], "namespace": draw(gen.shuffled(uni))}
        bad = draw(st.sampled_from([""] * 9 + ["no-json", "not-zip"]))
        files.append({"file": name, "bad": bad, "label": label,
                      "text": json.dumps({**doc, "variants": {label: docs.nested(v)}})})
    return {"files": files, "order": draw(st.integers(0, 2**20))}


def check_wheels(case, ctx):
    d = ctx.mkdir("wheels")
    for w in case["files"]:
        build_wheel(d, w)
    out = compare(case, ctx, [{"op": "generate"}])[0]
    expect(out[0], "generate-index-json failed")
    n = sum(len(json.loads(t)["variants"]) for t in out[1].values())
    ctx.nontrivial(n >= 2)
    ctx.label(f"variants={min(n, 5)}", f"indexes={len(out[1])}",
              "conflicts" if n < len({w["file"] for w in case["files"] if not w["bad"]}) else "all")


@st.composite
def case_plugins(draw):
    uni = draw(gen.universe(3, 3, 3))
    doc = draw(docs.info(uni, "project", ("plugin", "plugin", "aot_plugin", "aot")))
    specs = {}
    for ns, p in doc["providers"].items():
        for k in ("optional", "enable-if", "plugin-api"):
            p.pop(k, None)
        if p.get("requires"):
            aot = not p.get("install-time", True)
            b = draw(plugs.behaviour(ns, uni[ns], single=aot).filter(lambda b: b["sup"]))
            b["aot"] = True
            specs[ns] = b
    sup = [p for p in docs.static_supported(doc) if p[0] not in specs]
    sup += [p for ns, b in specs.items() for p in plugs.flat(ns, b["sup"])]
    vs = draw(st.lists(gen.prop_list(sup, min_size=1, max_size=4), min_size=1, max_size=5, unique_by=lambda v: tuple(sorted(map(tuple, v)))))
    return {"doc": doc, "specs": specs, "variants": vs, "order": draw(st.integers(0, 2**20)), "config": draw(docs.user_config(uni))}


def check_plugins(case, ctx):
    doc, specs = case["doc"], case["specs"]
    d = ctx.mkdir("plugins")
    cwd = ctx.mkdir("cwd")
    (cwd / "variants.toml").write_text(docs.config_toml(*case["config"]))
    for i, (ns, spec) in enumerate(specs.items()):
        doc["providers"][ns]["plugin-api"] = plugs.write(d, f"vtplug{i}", spec)
    v = case["variants"][0]
    ops = [{"op": "dist_info", "doc": doc, "variant": v, "expand": True}]
    # the index made of such wheels
    static = dict(doc.get("static-properties", {}))
    feat = {k: list(x) for k, x in docs.d_prios(doc)[1].items()}
    for ns, b in specs.items():
        if not doc["providers"][ns].get("install-time", True):
            static[ns] = {f: vs for f, vs, _ in b["sup"]}
            if len(b["sup"]) > 1:
                lst = feat.setdefault(ns, [])
                lst += [f for f in static[ns] if f not in lst]
    index = {**doc, "static-properties": static, "default-priorities": {**doc["default-priorities"], "feature": feat},
             "variants": {model.variant_hash(x): docs.nested(x) for x in case["variants"]}}
    ops += [{"op": "resolve", "doc": index, "sites": [], "env": None, "optional": False},
            {"op": "validate", "doc": index, "variant": v}]
    out = compare(case, ctx, ops)
    ctx.nontrivial(len(specs) >= 1 and not any(isinstance(x, dict) for x in out))
    ctx.label(f"plugins={len(specs)}", *{f"{op['op']}-error" for op, x in zip(ops, out, strict=True) if isinstance(x, dict)})


CHECKS = [
    Check("documents", case_docs, check_docs, 1000, 30000,
          "an index, user configuration and installed packages, answered by four processes with different hash seeds and "
          "directory listing orders, and again for a reordered spelling; non-trivial with at least 3 variants, one of "
          "them with 2 properties"),
    Check("wheels", case_wheels, check_wheels, 500, 12000,
          "directories of wheels indexed by those processes; non-trivial when at least two variants are published"),
    Check("plugins", case_plugins, check_plugins, 100, 2500,
          "metadata made, resolved and validated with real plugins by those processes; non-trivial when nothing fails"),
]
