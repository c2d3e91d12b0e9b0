"""C08: library calls leave their inputs untouched and are repeatable."""
import dataclasses
import json
import logging
import os
import sys
import warnings

from hypothesis import strategies as st

from vt import docs, gen
from vt.core import Check, expect, expect_eq
from vt.lib import VD, VP
from vt.props import c05
from vt.props.c04 import priorities

OPS = ["resolve_dict", "resolve_obj", "resolve_lists", "filter", "sort_props", "sort_descs", "validate", "dist_info",
       "supported", "env", "label", "conv", "merge", "requires", "to_str", "aggregate", "parse_dict", "parse_project",
       "desc", "reparse", "filters", "index_of_one", "config", "abi",
       "lazy"]


PLUGIN_OPS = ["resolve_dict", "resolve_obj", "validate", "dist_info", "supported", "supported", "merge", "to_str",
              "requires", "conv", "loader", "abi"]


@st.composite
def case_plugin_history(draw):
    base = draw(c05.case_plugins())
    doc, specs = base["doc"], base["specs"]
    uni: dict = {}
    for ns in doc.get("providers", {}):
        if ns in specs:
            uni[ns] = {f: vs for f, vs, _ in specs[ns]["all"]}
            if not doc["providers"][ns].get("install-time", True) and draw(st.integers(0, 3)):
                specs[ns]["aot"] = True
                for lst in ("all", "sup"):
                    specs[ns][lst] = [[f, v, False] for f, v, _ in specs[ns][lst]]
        else:
            uni[ns] = doc["static-properties"][ns]
    props = gen.all_props(uni)
    project = {k: v for k, v in doc.items() if k in ("default-priorities", "providers", "static-properties")}
    project = json.loads(json.dumps(project))
    for ns in specs:
        project.get("static-properties", {}).pop(ns, None)
    n = draw(st.sampled_from([5, 7, 4]))
    ops = draw(st.lists(st.tuples(st.sampled_from(PLUGIN_OPS), st.integers(0, 5), st.integers(0, 5)).map(list),
                        min_size=n, max_size=n))
    ops.append(draw(st.sampled_from(ops)))
    sup = [p for p in c05.supported_now(doc, specs, True)]
    return {"doc": doc, "project": {"variant": project}, "config": base["config"], "supported": [], "specs": specs,
            "variants": [draw(gen.prop_list(draw(st.sampled_from([sup, props])), min_size=1, max_size=3))
                         for _ in range(draw(st.integers(1, 3)))],
            "ns": list(uni), "feat": None, "prop": None, "fns": None, "ffe": None, "fpr": None, "ops": ops,
            "env": draw(env_spec())}


@st.composite
def case_history(draw):
    uni, doc, config = draw(c05.index_case(("aot",), big=False))
    project = draw(docs.info({ns: uni[ns] for ns in uni}, "project", ("aot",)))
    props = gen.all_props(uni)
    supported = []
    for ns in uni:
        for f in uni[ns]:
            supported += [[ns, f, v[0]] for v in draw(gen.prop_list([[v] for v in uni[ns][f]], max_size=4))]
    feat, prop = draw(priorities(uni))
    n = draw(st.sampled_from([10, 14, 18, 6]))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 5), st.integers(0, 5)).map(list),
                        min_size=n, max_size=n))
    # make sure something is repeated after other calls
    for _ in range(draw(st.integers(1, 3))):
        ops.append(draw(st.sampled_from(ops)))
    return {"doc": doc, "project": {"variant": project}, "config": config, "supported": supported,
            "variants": [draw(gen.prop_list(supported or props, max_size=3)) for _ in range(draw(st.integers(1, 4)))],
            "ns": draw(gen.shuffled(uni)), "feat": feat, "prop": prop,
            "fns": draw(st.none() | st.just(list(uni)[:1])), "ffe": draw(st.none() | st.just([p[:2] for p in props[:1]])),
            "fpr": draw(st.none() | gen.prop_list(props, max_size=3)), "ops": ops, "env": draw(env_spec())}


def env_spec():
    return st.sampled_from([None, "foo==1.2.3,torch==2", "a-b==1.0,bad", "foo==2"])


def world():
    """State of the process that library calls are to leave alone."""
    return {"environment": dict(os.environ), "working directory": os.getcwd(), "import path": list(sys.path),
            "recursion limit": sys.getrecursionlimit(), "warning filters": list(map(str, warnings.filters)),
            "log handlers": [str(h) for h in logging.getLogger().handlers], "log level": logging.getLogger().level,
            "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)]}


def snap(x):
    """A deep, order-preserving value of an object."""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [type(x).__name__, [[f.name, snap(getattr(x, f.name, None))] for f in dataclasses.fields(x)]]
    if isinstance(x, dict):
        return ["dict", [[snap(k), snap(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [snap(v) for v in x]]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted((snap(v) for v in x), key=repr)]
    if x is None or isinstance(x, (str, int, float, bool, bytes)):
        return x
    raise TypeError(type(x))


def mutables(x, out=None):
    """ids of all mutable containers inside a metadata object."""
    out = {} if out is None else out
    if isinstance(x, dict):
        out[id(x)] = x
        for v in x.values():
            mutables(v, out)
    elif isinstance(x, (list, set)):
        out[id(x)] = x
        for v in x:
            mutables(v, out)
    elif dataclasses.is_dataclass(x):
        if not x.__dataclass_params__.frozen:
            out[id(x)] = x
        for f in dataclasses.fields(x):
            mutables(getattr(x, f.name, None), out)
    return out


def scramble(x):
    """Change every container reachable from a metadata object (not the frozen variants)."""
    for f in dataclasses.fields(x):
        v = getattr(x, f.name, None)
        _scramble(v)


def _scramble(v):
    if isinstance(v, dict):
        for y in list(v.values()):
            _scramble(y)
        v["zz"] = "changed"
    elif isinstance(v, list):
        for y in v:
            _scramble(y)
        v.append("zz")
    elif dataclasses.is_dataclass(v) and not v.__dataclass_params__.frozen:
        for f in dataclasses.fields(v):
            _scramble(getattr(v, f.name))
        for f in dataclasses.fields(v):
            if isinstance(getattr(v, f.name), (str, bool, type(None))):
                setattr(v, f.name, "zz")


def machinery(case, ctx):
    """fresh(): a pool of objects; answer(pool, op, i, j): what one call gives."""
    from variantlib import api
    from variantlib.configuration import VariantConfiguration
    from variantlib.plugins.loader import PluginLoader
    from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.resolver import lib, filtering, sorting
    from variantlib.utils import (aggregate_feature_priorities, aggregate_namespace_priorities,
                                  aggregate_property_priorities)
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    ctx.sys_path([])
    ctx.setenv("VARIANT_ABI_DEPENDENCY", case["env"])
    c05.put_config(ctx, case["config"])
    doc, proj = case["doc"], case["project"]
    expand = "specs" in case
    if expand:
        c05.install_plugins(ctx, doc, case["specs"])
        for ns in case["specs"]:
            proj["variant"]["providers"][ns]["plugin-api"] = doc["providers"][ns]["plugin-api"]

    def fresh():
        p = {"doc": json.loads(json.dumps(doc)), "project": json.loads(json.dumps(proj)),
             "vj": VariantsJson(json.loads(json.dumps(doc))),
             "pp": VariantPyProjectToml(json.loads(json.dumps(proj))),
             "S": [VP(x) for x in case["supported"]], "V": [VD(x) for x in case["variants"]],
             "ns": list(case["ns"]), "feat": json.loads(json.dumps(case["feat"])),
             "prop": json.loads(json.dumps(case["prop"])), "fns": case["fns"] and list(case["fns"]),
             "ffe": None if case["ffe"] is None else [VariantFeature(*f) for f in case["ffe"]],
             "fpr": None if case["fpr"] is None else [VP(x) for x in case["fpr"]]}
        # the metadata of the wheel of one listed variant
        one = json.loads(json.dumps(doc))
        one["variants"] = dict(list(one["variants"].items())[:1]) or {"null": {}}
        p["di"] = VariantDistInfo(json.dumps(one))
        return p

    def run(p, op, i, j):
        V, S = p["V"], p["S"]
        v = V[i % len(V)]
        infos = [p["vj"], p["pp"], p["di"]]
        classes = [VariantsJson, VariantDistInfo, VariantPyProjectToml]
        if op == "resolve_dict":
            return api.get_variants_by_priority(variants_json=p["doc"])
        if op == "resolve_obj":
            return api.get_variants_by_priority(variants_json=p["vj"])
        if op == "resolve_lists":
            return lib.sort_and_filter_supported_variants(V, S, p["ns"], p["feat"], p["prop"], p["fns"], p["ffe"],
                                                          p["fpr"])
        if op == "filter":
            return list(lib.filter_variants(V, S, p["fns"], p["ffe"], p["fpr"]))
        if op == "lazy":
            # several answers taken a piece at a time
            W = [*V, *V[:i]]
            start = lambda: [lib.filter_variants(W, S, p["fns"], p["ffe"], p["fpr"]), filtering.remove_duplicates(W),  # noqa: E731
                             filtering.filter_variants_by_property(W, S), lib.filter_variants(W[i % len(V):], S),
                             filtering.remove_duplicates(W[1:])]
            gens = start()
            out = [[] for _ in gens]
            live = list(range(len(gens)))
            while live:
                k = live[j % len(live)]
                try:
                    out[k].append(next(gens[k]))
                except StopIteration:
                    live.remove(k)
                j += 1
            expect_eq(snap(out), snap([list(g) for g in start()]), "answers taken a piece at a time")
            return out
        if op == "filters":
            return [list(filtering.remove_duplicates(V)), list(filtering.filter_variants_by_property(V, S, p["fpr"])),
                    list(filtering.filter_variants_by_namespaces(V, p["fns"] or [])),
                    list(filtering.filter_variants_by_features(V, p["ffe"] or []))]
        if op == "sort_props":
            return sorting.sort_variant_properties(S, p["ns"], p["feat"], p["prop"])
        if op == "sort_descs":
            return sorting.sort_variants_descriptions(V, S)
        if op == "validate":
            return api.validate_variant(v, infos[j % 3])
        if op == "dist_info":
            return api.make_variant_dist_info(v, infos[j % 3], expand_aot_plugin_properties=expand)
        if op == "index_of_one":
            return api.make_variant_dist_info(v)
        if op == "supported":
            if j % 2:
                return api.check_variant_supported(variant_info=p["di"])
            return api.check_variant_supported(vdesc=v, variant_info=infos[j % 3])
        if op == "env":
            return api.get_variant_environment_dict(v, "label" if j % 2 else None)
        if op == "label":
            return api.get_variant_label(v, [None, "x", "null", "Bad"][j % 4])
        if op == "conv":
            src = infos[j % 3]
            before = snap(src)
            copy = classes[i % 3](src)
            if isinstance(copy, VariantDistInfo):
                copy.variant_desc = v
            shared = set(mutables(copy)) & set(mutables(src))
            expect(not shared, "converted copy shares mutable state with its source")
            got = snap(copy)
            scramble(copy)
            expect_eq(snap(src), before, "changing a converted copy changed its source")
            return got
        if op == "merge":
            target = VariantsJson(p["doc"])
            other = p["di"] if i % 2 else p["vj"]
            r = target.merge(other)
            expect(r is None, "merge returned something")
            # the target and the argument stay independent of each other
            got = snap(target)
            if j % 2:
                more = VariantsJson(other)
                more.variants = {"added": VD([["zz", "zz", "zz"]])}
                target.merge(more)
            return got
        if op == "requires":
            return infos[j % 3].get_provider_requires(None if i % 2 else set(list(p["ns"])[:i]), include_aot_plugins=bool(j % 2))
        if op == "to_str":
            return (p["vj"] if j % 2 else p["di"]).to_str()
        if op == "aggregate":
            cfg = [["x", *p["ns"][:1]], {"a": ["b"]}, {"a": {"f": ["2"]}}]
            src = infos[j % 3]
            return [aggregate_namespace_priorities(cfg[0] if i % 2 else None, p["ns"], src.namespace_priorities),
                    aggregate_feature_priorities(p["feat"], cfg[1] if i % 2 else None, src.feature_priorities),
                    aggregate_property_priorities(p["prop"], cfg[2] if i % 2 else None, src.property_priorities)]
        if op == "parse_dict":
            return VariantsJson(p["doc"])
        if op == "parse_project":
            return VariantPyProjectToml(p["project"])
        if op == "reparse":
            return VariantsJson(json.loads(p["vj"].to_str()))
        if op == "desc":
            lst = list(reversed(S))
            before = list(lst)
            d = VariantDescription(lst)
            expect(all(a is b for a, b in zip(lst, before, strict=True)), "constructor reordered its argument")
            return [d, d.hexdigest, d.serialize(), d.to_dict(), hash(VariantProperty("a", "b", "c")) == hash(
                VariantProperty("a", "b", "c")), VariantDescription.from_dict(v.to_dict()), v.is_null_variant()]
        if op == "config":
            return [VariantConfiguration.namespace_priorities, VariantConfiguration.feature_priorities,
                    VariantConfiguration.property_priorities]
        if op == "abi":
            sup, ns = list(S), list(p["ns"])
            lib.inject_abi_dependency(sup, ns)
            return [sup, ns]
        if op == "loader":
            with PluginLoader(infos[j % 3], enable_optional_plugins=bool(i % 2), include_aot_plugins=True) as loader:
                return [loader.namespaces, loader.plugin_api_values, loader.get_supported_configs(), loader.get_all_configs()]
        raise AssertionError(op)

    def answer(p, op, i, j):
        try:
            return ["ok", snap(run(p, op, i, j))]
        except (ValueError, KeyError, RuntimeError) as exc:
            return ["error", type(exc).__name__]

    return fresh, answer, expand


def check_history(case, ctx):
    fresh, answer, expand = machinery(case, ctx)
    pool = fresh()
    before = {k: snap(v) for k, v in pool.items()}
    memo: dict = {}
    repeats = 0
    around = world()
    for step, (op, i, j) in enumerate(case["ops"]):
        got = answer(pool, op, i, j)
        for k, v in pool.items():
            expect_eq(snap(v), before[k], f"step {step}: {op} changed its caller's {k!r}")
        for k, v in world().items():
            expect_eq(v, around[k], f"step {step}: {op} changed the {k}")
        key = (op, i, j)
        if key in memo:
            repeats += 1
            expect_eq(got, memo[key], f"step {step}: {op} answered differently when repeated")
        else:
            memo[key] = got
            # equal arguments, other objects
            expect_eq(answer(fresh(), op, i, j), got, f"step {step}: {op} on equal arguments")
    ctx.nontrivial(repeats >= 1 and len(memo) >= (3 if expand else 5))
    ctx.label(*{o for o, _, _ in case["ops"]}, f"errors={min(sum(1 for x in memo.values() if x[0] == 'error'), 3)}")


CHECKS = [
    Check("history", case_history, check_history, 2800, 80000,
          "histories of 7-21 library calls over shared objects, deep snapshots after every call; non-trivial when "
          "at least 5 different calls are made and one is repeated"),
    Check("plugin-history", case_plugin_history, check_history, 320, 6000,
          "histories over metadata whose providers are real plugins, including expansion of ahead-of-time "
          "providers; non-trivial when at least 3 different calls are made and one is repeated"),
]
