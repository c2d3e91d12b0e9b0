"""Reference validator of metadata documents (independent of variantlib)."""
from __future__ import annotations

from vt import docs
from vt.model import is_label, is_name, is_value


class Bad(Exception):
    pass


class Ambiguous(Exception):
    """The documentation does not settle whether the document is acceptable."""


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def dict_of(x, what, keys=None):
    need(type(x) is dict, f"{what}: not a table")
    need(all(type(k) is str for k in x), f"{what}: key type")
    if keys is not None:
        need(set(x) <= set(keys), f"{what}: unknown key")
    return x


def list_of(x, ok, what):
    need(type(x) is list, f"{what}: not a list")
    for v in x:
        need(type(v) is str, f"{what}: item type")
        need(ok(v), f"{what}: bad item {v!r}")
    return x


def one_line(s):
    return s != "" and not any(c.isspace() and c != " " for c in s)


def api_ok(s):
    parts = s.split(":")
    if len(parts) > 2:
        return False
    if len(parts) == 2:
        parts = [parts[0].rstrip(), parts[1].lstrip()]
    return all(p and all(c.isalnum() or c in '_.' for c in p) for p in parts)


def check(doc, flavour, expected_label=None):
    """Raises Bad / Ambiguous, or returns normally for a well-formed document."""
    top = ["default-priorities", "providers", "static-properties"]
    dict_of(doc, "document")
    if flavour != "project":
        top += ["variants", "$schema"]
    unknown_top = set(doc) - set(top)
    dp = dict_of(doc.get("default-priorities", {}), "default-priorities", ["namespace", "feature", "property"])
    nsp = list_of(dp.get("namespace", []), is_name, "namespace priorities")
    feat = dict_of(dp.get("feature", {}), "feature priorities")
    for k, v in feat.items():
        need(is_name(k), "feature priorities: namespace")
        list_of(v, is_name, "feature priorities")
    prop = dict_of(dp.get("property", {}), "property priorities")
    for k, v in prop.items():
        need(is_name(k), "property priorities: namespace")
        for f, vs in dict_of(v, "property priorities").items():
            need(is_name(f), "property priorities: feature")
            list_of(vs, is_value, "property priorities")
    providers = dict_of(doc.get("providers", {}), "providers")
    null_option = False
    for ns, p in providers.items():
        need(is_name(ns), "provider namespace")
        dict_of(p, "provider", ["requires", "optional", "plugin-api", "enable-if", "install-time"])
        list_of(p.get("requires", []), one_line, "requires")
        need(type(p.get("optional", False)) is bool, "optional")
        need(type(p.get("install-time", True)) is bool, "install-time")
        if p.get("plugin-api", "") is None or p.get("enable-if", "") is None:
            null_option = True
        if p.get("plugin-api") is not None:
            need(type(p["plugin-api"]) is str and api_ok(p["plugin-api"]), "plugin-api")
        if p.get("enable-if") is not None:
            need(type(p["enable-if"]) is str and one_line(p["enable-if"]), "enable-if")
        need(p.get("requires") or not p.get("install-time", True), "requires missing")
    static = dict_of(doc.get("static-properties", {}), "static-properties")
    for ns, fs in static.items():
        need(is_name(ns), "static namespace")
        for f, vs in dict_of(fs, "static properties").items():
            need(is_name(f), "static feature")
            list_of(vs, is_value, "static values")
        if len(fs) > 1:
            need(set(fs) <= set(feat.get(ns, [])), "feature priorities of an ahead-of-time provider missing")
    need(set(nsp) == set(providers), "namespace priorities")
    want = {ns for ns, p in providers.items() if docs.expects_static(p, flavour)}
    need({ns for ns in static if static[ns]} == want, "static properties of ahead-of-time providers")
    if flavour != "project":
        need("variants" in doc, "no variants")
        vs = dict_of(doc["variants"], "variants")
        for label, v in vs.items():
            need(is_label(label), "label")
            n = 0
            for ns, fs in dict_of(v, "variant").items():
                for f, vals in dict_of(fs, "variant namespace").items():
                    list_of(vals, is_value, "variant values")
                    need(len(set(vals)) == len(vals), "repeated property")
                    n += len(vals)
                    need(not vals or (is_name(ns) and is_name(f)), "variant names")
                    if not (is_name(ns) and is_name(f)):
                        raise Ambiguous("unused bad name")
                if not fs and not is_name(ns):
                    raise Ambiguous("unused bad name")
            need((n == 0) == (label == "null"), "null label")
    if flavour == "wheel":
        need(len(doc["variants"]) == 1, "exactly one variant")
        need(expected_label is None or expected_label in doc["variants"], "expected label")
    if null_option:
        raise Ambiguous("null for an optional setting")
    if unknown_top:
        raise Ambiguous("unknown top-level key")
    if any(not fs for fs in static.values()):
        raise Ambiguous("empty static properties")
    if len(set(nsp)) != len(nsp):
        raise Ambiguous("repeated namespace")
    if "$schema" in doc and type(doc["$schema"]) is not str:
        raise Ambiguous("schema key")


def verdict(doc, flavour, expected_label=None) -> str:
    try:
        check(doc, flavour, expected_label)
    except Bad as e:
        return f"bad: {e}"
    except Ambiguous as e:
        return f"ambiguous: {e}"
    return "good"
