"""C09: metadata documents are accepted exactly when well-formed."""
import copy
import json

from hypothesis import strategies as st

from vt import docmodel, docs, gen, model
from vt.core import Check, Skip, expect_eq
from vt.lib import errors, must_raise

JUNK = [None, True, False, 0, 1, 1.5, "x", "", [], {}, ["x"], {"x": []}, {"x": ["y"]}, [1], [["x"]], {"x": 1},
        {"x": {"y": ["z"]}}, [None], ["x", 1], {"x": {"y": "z"}}]


@st.composite
def document(draw, flavour):
    uni = draw(gen.universe(3, 3, 3))
    if draw(st.integers(0, 11)) == 11:
        uni = {}
    doc = draw(docs.info(uni, flavour))
    if flavour == "project":
        return doc
    pool = gen.all_props(uni) + [["free", "f", "1"], ["free", "g", "v.2"]]
    if flavour == "wheel":
        vs = draw(docs.variants(pool, 1, 1, null=draw(st.sampled_from([False] * 3 + [True]))))
        if len(vs) != 1:
            vs = dict(list(vs.items())[:1]) or {"null": []}
    else:
        vs = draw(docs.variants(pool, 0, 4))
    doc["variants"] = docs.variants_json(vs)
    s = draw(docs.schema_key())
    if s:
        doc["$schema"] = s
    return doc


def junk():
    return fresh(JUNK)


def fresh(items):
    """One of the items, never shared between cases."""
    return st.sampled_from(items).map(copy.deepcopy)


def walk(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from walk(x[k], (*path, k))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from walk(v, (*path, i))


def get(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, v):
    get(x, path[:-1])[path[-1]] = v


def rename(d, old, new):
    items = [(new if k == old else k, v) for k, v in d.items()]
    d.clear()
    d.update(items)


@st.composite
def mutate(draw, doc, flavour):
    """One change at a random position, biased towards the near-valid."""
    paths = [p for p in walk(doc) if p]
    if not paths:
        doc["providers"] = draw(junk())
        return "junk"
    path = draw(st.sampled_from(paths))
    target, key = get(doc, path), path[-1]
    parent = get(doc, path[:-1])
    kind = draw(st.sampled_from(["junk", "token", "rename", "delete", "add", "copy-ns", "semantic", "semantic"]))
    if kind == "junk":
        put(doc, path, draw(junk()))
    elif kind == "token":
        strs = [p for p in paths if isinstance(get(doc, p), str)]
        if not strs:
            return "none"
        p = draw(st.sampled_from(strs))
        old = get(doc, p)
        put(doc, p, draw(st.one_of(
            gen.bad_token(True), gen.bad_token(False),
            st.sampled_from([old + "\n", "\n" + old, old.upper(), old + " ", " " + old, old + "-", "", old + "\t",
                             old + ":", old + "." + old, old.replace("_", "-"), old + "\u00e9"]))))
    elif kind == "rename":
        keys = [p for p in paths if isinstance(p[-1], str)]
        p = draw(st.sampled_from(keys))
        d = get(doc, p[:-1])
        old = p[-1]
        new = draw(st.one_of(gen.bad_token(True), gen.bad_token(False), gen.ns_token(), st.sampled_from(
            [old + "\n", old.upper(), old + " ", old + ".", old[:-1], old + "x", "", "x" * 17, "x" * 16, "null"])))
        if new not in d:
            rename(d, old, new)
    elif kind == "delete":
        if isinstance(parent, dict):
            del parent[key]
        else:
            parent.pop(key)
    elif kind == "add":
        boxes = [p for p in [(), *paths] if isinstance(get(doc, p), (dict, list))]
        p = draw(st.sampled_from(boxes))
        box = get(doc, p)
        if isinstance(box, list):
            box.insert(draw(st.integers(0, len(box))), draw(st.one_of(
                fresh([*JUNK, *box]), gen.bad_token(True), gen.val_token(), gen.ns_token())))
        elif p:
            new = draw(st.one_of(st.sampled_from(["namespace", "feature", "property", "requires", "optional", "plugin-api",
                                                  "enable-if", "install-time", "unknown", "plugin_api"]),
                                 gen.ns_token(), gen.bad_token(True)))
            if new not in box:
                box[new] = draw(fresh(JUNK + list(box.values())))
    elif kind == "copy-ns":
        # the same names in a table where they do not belong
        tables = [k for k in ("providers", "static-properties", "variants") if isinstance(doc.get(k), dict)]
        if not tables:
            return "none"
        t = doc[draw(st.sampled_from(tables))]
        if t:
            k = draw(st.sampled_from(list(t)))
            if isinstance(t[k], (dict, list)):
                t[draw(st.one_of(gen.ns_token(), docs.label_text()))] = json.loads(json.dumps(t[k]))
    else:
        provs = [p for p in doc.get("providers", {}).values() if isinstance(p, dict)] \
            if isinstance(doc.get("providers"), dict) else []
        choice = draw(st.sampled_from(["install", "requires", "nsp", "feat", "static", "null", "dupval", "provider-gone",
                                       "label", "two"]))
        dp = doc.get("default-priorities")
        stat = doc.get("static-properties")
        vs = doc.get("variants")
        if choice == "install" and provs:
            p = draw(st.sampled_from(provs))
            p["install-time"] = not p.get("install-time", True)
        elif choice == "requires" and provs:
            p = draw(st.sampled_from(provs))
            p["requires"] = draw(st.sampled_from([[], ["pkg"], [""], ["a\nb"], "pkg", ["pkg", 1]]))
        elif choice == "nsp" and isinstance(dp, dict) and isinstance(dp.get("namespace"), list) and dp["namespace"]:
            dp["namespace"].pop(draw(st.integers(0, len(dp["namespace"]) - 1)))
        elif choice == "feat" and isinstance(dp, dict) and isinstance(dp.get("feature"), dict) and dp["feature"]:
            k = draw(st.sampled_from(list(dp["feature"])))
            if isinstance(dp["feature"][k], list) and dp["feature"][k]:
                dp["feature"][k].pop(draw(st.integers(0, len(dp["feature"][k]) - 1)))
        elif choice == "static" and isinstance(stat, dict) and stat:
            k = draw(st.sampled_from(list(stat)))
            if isinstance(stat[k], dict):
                stat[k][draw(gen.feat_token())] = [draw(gen.val_token())]
        elif choice == "null" and isinstance(vs, dict):
            if draw(st.booleans()):
                vs["null"] = draw(st.sampled_from([{}, {"a": {"b": ["c"]}}]))
            else:
                vs[draw(docs.label_text())] = draw(st.sampled_from([{}, {"a": {}}, {"a": {"b": []}}]))
        elif choice == "dupval" and isinstance(vs, dict):
            lists = [x for p in walk(vs) for x in [get(vs, p)] if isinstance(x, list) and x]
            if lists:
                x = draw(st.sampled_from(lists))
                x.append(x[0])
        elif choice == "provider-gone" and isinstance(doc.get("providers"), dict) and doc["providers"]:
            doc["providers"].pop(draw(st.sampled_from(list(doc["providers"]))))
        elif choice == "label" and isinstance(vs, dict) and vs:
            k = draw(st.sampled_from(list(vs)))
            rename(vs, k, draw(st.sampled_from(["x" * 17, "Null", "A", "a-b", "a b", "", "a\n", "x" * 16, "\u00e9", "null"])))
        elif choice == "two" and isinstance(vs, dict):
            vs["extra"] = {"free": {"f": ["zz"]}}
        return f"semantic-{choice}"
    return kind


@st.composite
def case_doc(draw):
    flavour = draw(st.sampled_from(["index", "wheel", "project"]))
    doc = draw(document(flavour))
    kinds = []
    for _ in range(draw(st.sampled_from([1, 1, 0, 2, 1]))):
        kinds.append(draw(mutate(doc, flavour)))
    label = None
    if flavour == "wheel":
        vs = doc.get("variants")
        label = draw(st.sampled_from([None, "same", "same", "other", "near"]))
        if label == "same":
            label = next(iter(vs), None) if isinstance(vs, dict) else None
        elif label == "other":
            label = draw(st.sampled_from(["null", "other", model.variant_hash([["a", "b", "c"]])]))
        elif label == "near":
            label = (next(iter(vs), "") if isinstance(vs, dict) else "") + "x"
    return {"flavour": flavour, "doc": doc, "mut": kinds, "label": label,
            "how": draw(st.sampled_from(["direct", "bytes", "file"]))}


def has_none(x):
    return x is None or any(has_none(get(x, p)) if p else False for p in walk(x) if p and get(x, p) is None)


def surrogates(x):
    return any("\ud800" <= c <= "\udfff" for c in json.dumps(x, ensure_ascii=False))


def check_doc(case, ctx):
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    doc, flavour, label, how = case["doc"], case["flavour"], case["label"], case["how"]
    v = docmodel.verdict(doc, flavour, label)
    if v.startswith("ambiguous"):
        raise Skip
    ve = errors().ValidationError
    text = json.dumps(doc, ensure_ascii=bool(len(case["mut"]) % 2))
    if flavour == "index":
        def parse():
            return VariantsJson(json.loads(text) if how != "direct" else doc)
    elif flavour == "wheel":
        def parse():
            return VariantDistInfo(text.encode() if how == "bytes" else text, label)
    elif how == "file" and not has_none(doc):
        path = ctx.dir / "pyproject.toml"
        path.write_text(docs.toml({"project": {"name": "x"}, "variant": doc}), encoding="utf-8")

        def parse():
            return VariantPyProjectToml.from_path(path)
    else:
        def parse():
            return VariantPyProjectToml({"variant": doc, "tool": {}})
    ctx.label(flavour, "good" if v == "good" else v.split(":")[1].strip(), *[f"mut={m}" for m in case["mut"]])
    ctx.nontrivial(bool(case["mut"]) or bool(doc.get("static-properties")))
    if v != "good":
        must_raise(ve, parse, f"{flavour} document with {v}")
        return
    obj = parse()
    # order of tables and lists included
    expect_eq(json.dumps(docs.lib_common(obj)), json.dumps(docs.d_common(doc)), "data of the accepted document")
    if flavour != "project":
        expect_eq(json.dumps(docs.lib_variants(obj)), json.dumps(docs.d_variants(doc)), "variants of the accepted document")
    if flavour == "wheel":
        expect_eq([obj.variant_label, *docs.lib_variants(obj).values()],
                  [next(iter(doc["variants"])), *docs.d_variants(doc).values()], "the wheel's variant")
        expect_eq(obj.variant_desc.hexdigest, model.variant_hash(docs.d_variants(doc)[obj.variant_label]), "hash")


@st.composite
def case_text(draw):
    """Wheel metadata that is not even JSON, or JSON of another type."""
    doc = draw(document("wheel"))
    text = json.dumps(doc).encode()
    kind = draw(st.sampled_from(["cut", "insert", "type", "encoding", "random"]))
    if kind == "cut":
        i = draw(st.integers(0, max(len(text) - 1, 0)))
        text = text[:i] + text[draw(st.integers(i + 1, len(text))):]
    elif kind == "insert":
        i = draw(st.integers(0, len(text)))
        text = text[:i] + draw(st.sampled_from([b",", b"}", b"{", b"]", b"\xff", b"\x00", b"\n\n", b'"', b"x", b"\xc3"])) + text[i:]
    elif kind == "type":
        text = json.dumps(draw(junk())).encode()
    elif kind == "encoding":
        text = draw(st.sampled_from([b"\xef\xbb\xbf" + text, b"\xff\xfe\x00" + text, b"\x80" + text, b"", b" ",
                                     text + b"\xfe"]))
    else:
        text = draw(st.binary(max_size=30))
    return {"hex": text.hex(), "kind": kind}


def check_text(case, ctx):
    from variantlib.variant_dist_info import VariantDistInfo

    data = bytes.fromhex(case["hex"])
    try:
        doc = json.loads(data)
        v = docmodel.verdict(doc, "wheel") if isinstance(doc, dict) else "bad: type"
    except ValueError:
        v = "bad: not JSON"
    except RecursionError:
        raise Skip from None
    if v.startswith("ambiguous"):
        raise Skip
    ctx.label(case["kind"], "good" if v == "good" else "bad")
    ctx.nontrivial()
    if v != "good":
        must_raise(errors().ValidationError, lambda: VariantDistInfo(data), f"wheel metadata: {v}")
    else:
        VariantDistInfo(data)


CHECKS = [
    Check("document", case_doc, check_doc, 12000, 500000,
          "well-formed documents of three kinds with 0-2 changes at random places; non-trivial when changed or "
          "with static properties"),
    Check("text", case_text, check_text, 2000, 50000, "damaged JSON texts of wheel metadata; all non-trivial"),
]
