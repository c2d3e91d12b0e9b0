"""C10: metadata survives serialization and conversion without loss."""
import json

from hypothesis import strategies as st

from vt import docs, gen, model
from vt.core import Check, expect, expect_eq
from vt.lib import VD
from vt.props.c09 import document


def one_line_text():
    return st.text(alphabet=st.one_of(st.sampled_from("ab-_.:;'\"\\/ <>=[]{}#@,\u00e9\u4e2d\U0001f600\x00\x7f"),
                                      st.characters(codec="utf-8").filter(lambda c: not c.isspace())),
                   min_size=1, max_size=12).filter(lambda s: not any(c.isspace() and c != " " for c in s))


@st.composite
def reorder(draw, x):
    """The same content with table keys in another order."""
    if isinstance(x, dict):
        keys = draw(gen.shuffled(x))
        return {k: draw(reorder(x[k])) for k in keys}
    return x


@st.composite
def case_doc(draw):
    flavour = draw(st.sampled_from(["index", "wheel", "project"]))
    doc = draw(document(flavour))
    for p in doc.get("providers", {}).values():
        if draw(st.integers(0, 3)) == 0 and p.get("requires"):
            p["requires"] = p["requires"] + [draw(one_line_text())]
        if draw(st.integers(0, 3)) == 0:
            p["enable-if"] = draw(one_line_text())
    for fs in doc.get("static-properties", {}).values():
        if draw(st.integers(0, 7)) == 0:
            for f in draw(st.lists(st.sampled_from(sorted(fs)), unique=True)) if fs else []:
                fs[f] = []       # recorded, but nothing is supported
    props = draw(gen.free_props(4))
    return {"flavour": flavour, "doc": doc, "other": draw(reorder(doc)), "props": props,
            "label": draw(docs.label_text())}


def check_doc(case, ctx):
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    doc, flavour = case["doc"], case["flavour"]
    ctx.label(flavour, "reordered" if json.dumps(doc) != json.dumps(case["other"]) else "same-order")
    ctx.nontrivial(bool(doc.get("providers")) and json.dumps(doc) != json.dumps(case["other"]))
    common = docs.d_common(doc)

    def load(d):
        if flavour == "index":
            return VariantsJson(d)
        if flavour == "wheel":
            return VariantDistInfo(json.dumps(d))
        return VariantPyProjectToml({"variant": d})

    obj, other = load(doc), load(case["other"])
    expect_eq(docs.lib_common(obj), common, "parsed metadata")
    if flavour != "project":
        text = obj.to_str()
        expect_eq(obj.to_str(), text, "writing twice")
        expect_eq(other.to_str(), text, "text of the same content in another key order")
        raw = json.loads(text)
        expect_eq(docs.d_common(raw), common, "metadata in the text written")
        expect_eq(docs.d_variants(raw), docs.d_variants(doc), "variants in the text written")
        # the declared schema and everything written is a legal document again
        for cls, arg in ((VariantsJson, raw),) + (((VariantDistInfo, text), (VariantDistInfo, text.encode())) if len(
                raw["variants"]) == 1 else ()):
            back = cls(arg)
            expect_eq(docs.lib_common(back), common, f"{cls.__name__} read back")
            expect_eq(docs.lib_variants(back), docs.d_variants(doc), f"{cls.__name__} variants read back")
            if type(back) is type(obj):
                expect(back == obj, "metadata read back is not equal", got=back, want=obj)
            expect_eq(back.to_str(), text, "text after reading back")
    # conversions
    v = VD(case["props"])
    for cls in (VariantsJson, VariantDistInfo, VariantPyProjectToml):
        copy = cls(obj)
        expect_eq(docs.lib_common(copy), common, f"{type(obj).__name__} converted to {cls.__name__}")
        expect_eq(json.dumps(docs.lib_common(copy)), json.dumps(docs.lib_common(obj)), "order after conversion")
        again = type(obj)(copy)
        expect_eq(docs.lib_common(again), common, "converted there and back")
        if cls is VariantDistInfo:
            copy.variant_desc = v
            expect_eq(docs.lib_variants(copy), {model.variant_hash(case["props"]): sorted(case["props"])},
                      "variant set on wheel metadata")
            copy.variant_label = case["label"] if case["props"] else "null"
            expect_eq(docs.lib_variants(copy), {copy.variant_label: sorted(case["props"])}, "label set on wheel metadata")
            expect(copy.variant_label == (case["label"] if case["props"] else "null"), "label", got=copy.variant_label)
            expect_eq(docs.lib_common(copy), common, "metadata after setting variant and label")
            raw = json.loads(copy.to_str())
            expect_eq(docs.d_common(raw), common, "converted metadata in the text written")
            if all(docs.expects_static(p, "project") == docs.expects_static(p, "index")
                   for p in doc.get("providers", {}).values()) or flavour != "project":
                back = VariantDistInfo(copy.to_str(), copy.variant_label)
                expect(back == copy, "converted metadata read back is not equal", got=back, want=copy)


CHECKS = [
    Check("document", case_doc, check_doc, 6000, 200000,
          "well-formed documents of three kinds and the same content with shuffled keys; non-trivial when there is "
          "a provider and the key order differs"),
]
