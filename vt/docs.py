"""Generators and reference semantics of metadata documents (raw JSON / TOML data)."""
from __future__ import annotations

import json

from hypothesis import strategies as st

from vt import gen, model

MARKERS_TRUE = ["python_version >= '3.8'", "sys_platform == 'linux'", "os_name == 'posix'",
                "implementation_name == 'cpython' and python_version > '3'",
                "sys_platform == 'win32' or os_name == 'posix'", "'linux' in sys_platform",
                "platform_machine != 'nonesuch'", "python_full_version >= '3.10.0'"]
MARKERS_FALSE = ["python_version < '3.8'", "sys_platform == 'win32'", "os_name == 'nt'",
                 "implementation_name == 'pypy' or python_version < '3'",
                 "sys_platform == 'linux' and os_name == 'nt'", "'win' in sys_platform",
                 "platform_machine == 'nonesuch'", "python_version >= '4'", "extra == 'a'"]
REQS = ["pkg", "some-plugin", "dep >=1.0", "dep>=2", "x[extra]>=1,<2", "dep; python_version>'3'",
        "a.b-c == 1.*", "dep @ https://example.com/x.whl"]


def nested(props):
    out: dict = {}
    for ns, f, v in props:
        out.setdefault(ns, {}).setdefault(f, []).append(v)
    return out


def flatten(d):
    return [[ns, f, v] for ns, fs in d.items() for f, vs in fs.items() for v in vs]


def label_text():
    return st.one_of(
        st.sampled_from(["l1", "l2", "a", "cu126", "x86_64.v3", "0", ".", "_", "nul", "null1", "x" * 16, "12345678"]),
        st.text(alphabet="abcz019._", min_size=1, max_size=16)).filter(lambda x: x != "null")


@st.composite
def provider(draw, ns, kinds=("aot", "aot_plugin", "plugin")):
    kind = draw(st.sampled_from(list(kinds)))
    p = {}
    if kind != "aot":
        p["requires"] = draw(st.lists(st.sampled_from(REQS), min_size=1, max_size=3))
    elif draw(st.integers(0, 5)) == 0:
        p["requires"] = []
    if draw(st.integers(0, 2)) == 0:
        p["plugin-api"] = draw(st.sampled_from(["m", "m.n", "m:C", "m.n:C.d", "m : C", "prov_0:Plugin"]))
    if draw(st.integers(0, 3)) == 0:
        p["enable-if"] = draw(st.sampled_from(MARKERS_TRUE + MARKERS_FALSE))
    if draw(st.integers(0, 3)) == 0:
        p["optional"] = draw(st.booleans())
    if kind != "plugin":
        p["install-time"] = False
    elif draw(st.integers(0, 3)) == 0:
        p["install-time"] = True
    keys = draw(gen.shuffled(p))
    return {k: p[k] for k in keys}


def expects_static(p, flavour):
    """Must static-properties list this provider?"""
    if p.get("install-time", True):
        return False
    return flavour != "project" or not p.get("requires")


@st.composite
def static_for(draw, feats):
    """Recorded properties: a non-empty ordered subset of features with ordered subsets of values."""
    names = [x[0] for x in draw(gen.prop_list([[f] for f in feats], min_size=1, max_size=len(feats)))]
    out = {}
    for f in names:
        vals = [[v] for v in feats[f]]
        out[f] = [x[0] for x in draw(gen.prop_list(vals, min_size=1, max_size=len(vals)))]
    return out


@st.composite
def info(draw, uni, flavour="index", kinds=("aot", "aot_plugin", "plugin"), foreign=True):
    """Well-formed common part of a document.  Every namespace of `uni` gets a provider."""
    providers = {ns: draw(provider(ns, kinds)) for ns in draw(gen.shuffled(uni))}
    static = {}
    for ns in draw(gen.shuffled(uni)):
        if expects_static(providers[ns], flavour):
            static[ns] = draw(static_for(uni[ns]))
    feat, prop = {}, {}
    for ns, fs in uni.items():
        need = list(static.get(ns, {}))
        if len(need) > 1 or draw(st.booleans()):
            lst = draw(gen.shuffled(need)) if len(need) > 1 else []
            for f in fs:
                if f not in lst and draw(st.integers(0, 2)) == 0:
                    lst.insert(draw(st.integers(0, len(lst))), f)
            if foreign and draw(st.integers(0, 7)) == 0:
                lst.insert(draw(st.integers(0, len(lst))), draw(gen.feat_token()))
            feat[ns] = lst
        if draw(st.integers(0, 2)) == 0:
            sub = {}
            for f, vs in fs.items():
                if draw(st.booleans()):
                    sub[f] = [x[0] for x in draw(gen.prop_list([[v] for v in vs], max_size=len(vs)))]
                    if foreign and draw(st.integers(0, 7)) == 0:
                        sub[f].append(draw(gen.val_token()))
            prop[ns] = sub
    if foreign and draw(st.integers(0, 9)) == 0:
        feat.setdefault(draw(gen.ns_token()), [draw(gen.feat_token())])
    if foreign and draw(st.integers(0, 5)) == 0:
        # priorities of a namespace that has no provider: installed packages, or any other
        ns = draw(st.one_of(st.just("abi_dependency"), gen.ns_token()))
        names = draw(st.lists(st.sampled_from(["foo", "torch", "a_b", "f"]), unique=True, max_size=3))
        if draw(st.booleans()):
            feat.setdefault(ns, names)
        prop.setdefault(ns, {n: draw(st.lists(st.sampled_from(["2", "1", "1.2", "2.6", "3.1", "1.2.3"]), unique=True, max_size=3))
                             for n in names})
    prios = {"namespace": draw(gen.shuffled(uni))}
    if feat or draw(st.integers(0, 3)) == 0:
        prios["feature"] = feat
    if prop or draw(st.integers(0, 3)) == 0:
        prios["property"] = prop
    d = {}
    if uni or draw(st.booleans()):
        d["default-priorities"] = prios
    if uni or draw(st.booleans()):
        d["providers"] = providers
    if static or draw(st.integers(0, 4)) == 0:
        d["static-properties"] = static
    keys = draw(gen.shuffled(d))
    return {k: d[k] for k in keys}


@st.composite
def variants(draw, props, lo=0, hi=7, max_props=5, null=None):
    """{label: [[ns, f, v]...]} with distinct property sets; custom and default labels."""
    out: dict = {}
    seen = set()
    null = draw(st.booleans()) if null is None else null
    n = draw(st.integers(lo, hi))
    at = draw(st.integers(0, n))
    for i in range(n + 1):
        if i == at and null:
            out["null"] = []
        if i == n:
            break
        vp = draw(gen.prop_list(props, min_size=1, max_size=max_props))
        key = frozenset(map(tuple, vp))
        if not vp or key in seen:
            continue
        label = model.variant_hash(vp) if draw(st.booleans()) else draw(label_text())
        if label in out:
            continue
        seen.add(key)
        out[label] = vp
    return out


def variants_json(vs):
    return {label: nested(props) for label, props in vs.items()}


@st.composite
def schema_key(draw):
    return draw(st.sampled_from([None, "https://variants-schema.wheelnext.dev/v0.0.3.json"]))


# -- reading a raw document, as documented -------------------------------------

def d_prios(doc):
    p = doc.get("default-priorities", {})
    return p.get("namespace", []), p.get("feature", {}), p.get("property", {})


def d_provider(p):
    return {"requires": list(p.get("requires", [])), "optional": p.get("optional", False),
            "plugin-api": p.get("plugin-api"), "enable-if": p.get("enable-if"),
            "install-time": p.get("install-time", True)}


def d_common(doc):
    ns, feat, prop = d_prios(doc)
    return {"namespace": list(ns), "feature": {k: list(v) for k, v in feat.items()},
            "property": {k: {f: list(x) for f, x in v.items()} for k, v in prop.items() if v},
            "providers": {k: d_provider(p) for k, p in doc.get("providers", {}).items()},
            "static": {k: {f: list(x) for f, x in v.items()} for k, v in doc.get("static-properties", {}).items()}}


def d_variants(doc):
    return {k: sorted(flatten(v)) for k, v in doc.get("variants", {}).items()}


def lib_common(vi):
    """The same view of a library object (VariantInfo and subclasses)."""
    return {"namespace": list(vi.namespace_priorities),
            "feature": {k: list(v) for k, v in vi.feature_priorities.items()},
            "property": {k: {f: list(x) for f, x in v.items()} for k, v in vi.property_priorities.items() if v},
            "providers": {k: {"requires": list(p.requires), "optional": p.optional, "plugin-api": p.plugin_api,
                              "enable-if": p.enable_if, "install-time": p.install_time}
                          for k, p in vi.providers.items()},
            "static": {k: {f: list(x) for f, x in v.items()} for k, v in vi.static_properties.items()}}


def lib_variants(vj):
    from vt.lib import unD

    return {k: unD(v) for k, v in vj.variants.items()}


# -- TOML -----------------------------------------------------------------------

def toml_value(v) -> str:
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return toml_str(v)
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{toml_str(k)} = {toml_value(x)}" for k, x in v.items()) + "}"
    raise TypeError(v)


def toml_str(s: str) -> str:
    out = json.dumps(s, ensure_ascii=True)
    # JSON escapes astral characters as surrogate pairs, which TOML does not know
    if any(ord(c) > 0xFFFF or c == "\x7f" for c in s):
        out = '"' + "".join(f"\\U{ord(c):08x}" if ord(c) > 126 else json.dumps(c)[1:-1] for c in s) + '"'
    return out


def toml(d: dict) -> str:
    return "".join(f"{toml_str(k)} = {toml_value(v)}\n" for k, v in d.items())


def config_toml(ns, feat, prop) -> str:
    d = {}
    if ns is not None:
        d["namespace_priorities"] = ns
    if feat is not None:
        d["feature_priorities"] = feat
    if prop is not None:
        d["property_priorities"] = prop
    return toml(d)


# -- resolution -------------------------------------------------------------------

def static_supported(doc, skip=()):
    return [[ns, f, v] for ns, fs in doc.get("static-properties", {}).items() if ns not in skip
            for f, vs in fs.items() for v in vs]


def resolve(doc, supported, config=(None, None, None), packages=()):
    """Reference answer: list of sets of admissible labels, best first.

    `packages` is a list of [name, [values]] in order."""
    ns, feat, prop = d_prios(doc)
    nsp = model.merge_lists(config[0], ns)
    if "abi_dependency" not in nsp:
        nsp = nsp + ["abi_dependency"]
    sup = list(supported) + [["abi_dependency", n, v] for n, vs in packages for v in vs]
    ordered = model.order_properties(sup, nsp, model.merge_feat(config[1], feat), model.merge_prop(config[2], prop))
    vs = [(k, flatten(v)) for k, v in doc.get("variants", {}).items()]
    if not any(not v for _, v in vs):
        vs.append(("null", []))
    labels: dict = {}
    for k, v in vs:
        labels.setdefault(frozenset(map(tuple, v)), []).append(k)
    kept = model.filter_variants([v for _, v in vs], sup)
    kept.sort(key=lambda v: model.rank(v, ordered))
    return [(labels[frozenset(map(tuple, v))], model.rank(v, ordered)) for v in kept], ordered


@st.composite
def user_config(draw, uni):
    """User priorities (namespace, feature, property), each possibly absent."""
    ns = None
    if draw(st.integers(0, 3)):
        ns = [x[0] for x in draw(gen.prop_list([[n] for n in uni], max_size=len(uni)))]
        if draw(st.integers(0, 5)) == 0:
            ns.insert(draw(st.integers(0, len(ns))), draw(gen.ns_token()))
        if draw(st.integers(0, 5)) == 0:
            ns.insert(draw(st.integers(0, len(ns))), "abi_dependency")
    feat = prop = None
    if draw(st.integers(0, 3)):
        feat = {n: [x[0] for x in draw(gen.prop_list([[f] for f in fs], max_size=len(fs)))]
                for n, fs in uni.items() if draw(st.integers(0, 3))}
    if draw(st.integers(0, 3)):
        prop = {n: {f: [x[0] for x in draw(gen.prop_list([[v] for v in vs], max_size=len(vs)))]
                    for f, vs in fs.items() if draw(st.integers(0, 3))}
                for n, fs in uni.items() if draw(st.integers(0, 3))}
    return [ns, feat, prop]
