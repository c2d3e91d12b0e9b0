"""C02: model objects accept exactly the documented grammar."""
import itertools

from hypothesis import strategies as st

from vt import gen, model
from vt.core import Check, expect, expect_eq
from vt.lib import VD, VP, errors, must_raise, unD, unP

WS = ["", " ", "  ", "\t", "\n", "\r\n", "\x0b", "\x0c", "\x1c", "\x85", "\xa0", "\u2003", "\u2028", "\u3000"]
NOT_WS = ["\u200b", "\ufeff", "\x00", "\x1b", "_", ":", "\u180e"]


@st.composite
def case_text(draw):
    n = draw(st.sampled_from([3, 2]))
    toks = [draw(gen.ns_token()), draw(gen.feat_token()), draw(gen.val_token())][:n]
    ws = [draw(st.sampled_from(WS)) + (draw(st.sampled_from(WS)) if draw(st.booleans()) else "")
          for _ in range(2 * n)]
    text = "::".join(ws[2 * i] + t + ws[2 * i + 1] for i, t in enumerate(toks))
    kind = draw(st.sampled_from(["valid", "badtok", "edit", "drop", "any", "swap"]))
    if kind == "badtok":
        i = draw(st.integers(0, n - 1))
        toks[i] = draw(gen.bad_token(i == 2))
        text = draw(st.sampled_from([" :: ", "::"])).join(toks)
    elif kind == "edit":
        pos = draw(st.integers(0, len(text)))
        ins = draw(st.one_of(st.sampled_from(NOT_WS), st.sampled_from(WS), st.sampled_from(["::", ":", "A", "é", "."]),
                             st.characters(codec="utf-8")))
        cut = draw(st.integers(0, 2))
        text = text[:pos] + ins + text[pos + cut:]
    elif kind == "drop":
        pos = draw(st.integers(0, max(0, len(text) - 1)))
        text = text[:pos] + text[pos + draw(st.integers(1, 3)):]
    elif kind == "any":
        text = draw(gen.json_text())
    elif kind == "swap":
        text = text.replace("::", draw(st.sampled_from([":", ":::", "::::", ": :", "=", " ", "：："])), 1)
    return {"text": text, "kind": kind}


def check_text(case, ctx):
    from variantlib.models.variant import VariantFeature, VariantProperty

    ve = errors().ValidationError
    text = case["text"]
    for cls, n in ((VariantFeature, 2), (VariantProperty, 3)):
        want = model.split_text(text, n)
        if want is None:
            must_raise(ve, lambda: cls.from_str(text), f"{cls.__name__}.from_str({text!r})")
            ctx.label("rejected")
        else:
            ctx.label("accepted")
            ctx.nontrivial()
            got = cls.from_str(text)
            fields = [got.namespace, got.feature] + ([got.value] if n == 3 else [])
            expect_eq(fields, want, f"fields of {cls.__name__}.from_str({text!r})")
            expect_eq(got.to_str(), " :: ".join(want), "canonical text")
            again = cls.from_str(got.to_str())
            expect(again == got and hash(again) == hash(got), "text round trip is equal")
            expect_eq(cls(*want) == got, True, "equal to the constructed object")
            d = got.serialize()
            expect_eq(d, dict(zip(["namespace", "feature", "value"], want, strict=False)), "serialized")
            expect(cls.deserialize(d) == got, "serialization round trip")
            for keys in itertools.permutations(d):
                expect(cls.deserialize({k: d[k] for k in keys}) == got, "deserialization of reordered keys", keys=keys)
    ctx.nontrivial(case["kind"] in ("badtok", "edit", "drop", "swap"))


def field(dots):
    good = gen.val_token() if dots else gen.feat_token()
    odd = st.sampled_from([None, 1, 0, True, 1.5, [], ["a"], {}, {"a": "b"}, "", " a", "a ", "a\n", "\na", "a.b", ".",
                           "A", "a-b", "ä", "٣", "a b", "a::b", "K", "ſ", "a\x00"])
    return st.one_of(good, good, gen.bad_token(dots), odd)


@st.composite
def case_ctor(draw):
    return [draw(field(False)), draw(field(False)), draw(field(True))]


def check_ctor(case, ctx):
    from variantlib.models.variant import VariantFeature, VariantProperty

    ve = errors().ValidationError
    ns, f, v = case
    good2 = model.is_name(ns) and model.is_name(f)
    good3 = good2 and model.is_value(v)
    ctx.nontrivial(sum([model.is_name(ns), model.is_name(f), model.is_value(v)]) >= 2)
    ctx.label("good" if good3 else "bad")
    for good, make in (
        (good2, lambda: VariantFeature(ns, f)),
        (good2, lambda: VariantFeature(namespace=ns, feature=f)),
        (good3, lambda: VariantProperty(ns, f, v)),
        (good3, lambda: VariantProperty(value=v, feature=f, namespace=ns)),
        (good3, lambda: VariantProperty.deserialize({"namespace": ns, "feature": f, "value": v})),
    ):
        if good:
            x = make()
            for k in x.serialize():
                part = {a: b for a, b in x.serialize().items() if a != k}
                must_raise(Exception, lambda c=type(x), p=part: c.deserialize(p), f"deserializing without {k}")
            expect_eq((x.namespace, x.feature), (ns, f), "fields")
        else:
            must_raise(ve, make, f"constructor with {case!r}")
    if good3:
        p = VariantProperty(ns, f, v)
        expect_eq(p.value, v, "value")
        expect_eq(p.feature_object == VariantFeature(ns, f), True, "feature of the property")


@st.composite
def case_desc(draw):
    uni = draw(gen.universe(3, 3, 3))
    props = draw(gen.prop_list(gen.all_props(uni), max_size=8, min_size=draw(st.sampled_from([2, 0]))))
    other = draw(gen.prop_list(gen.all_props(uni), max_size=4))
    dup = draw(st.integers(0, len(props) - 1)) if props and draw(st.booleans()) else None
    at = draw(st.integers(0, len(props)))
    return {"props": props, "dup": dup, "at": at, "other": other,
            "perm": draw(gen.shuffled(range(len(props))))}


def check_desc(case, ctx):
    from variantlib.models.variant import VariantDescription

    ve = errors().ValidationError
    props = case["props"]
    ctx.nontrivial(len(props) >= 2)
    if case["dup"] is not None:
        ctx.label("duplicate")
        bad = list(props)
        bad.insert(case["at"], list(props[case["dup"]]))
        must_raise(ve, lambda: VD(bad), "variant with a duplicate property")
        must_raise(ve, lambda: VariantDescription.deserialize(
            [{"namespace": a, "feature": b, "value": c} for a, b, c in bad]), "deserializing a duplicate")
    vd = VD([props[i] for i in case["perm"]])
    expect_eq(unD(vd), sorted(props), "sorted distinct properties")
    expect_eq(vd.is_null_variant(), not props, "null variant")
    expect_eq(vd == VD(props), True, "equality independent of order")
    other = VD(case["other"])
    expect_eq(vd == other, sorted(props) == sorted(case["other"]), "equality means same properties")
    nested = vd.to_dict()
    flat = sorted([ns, f, v] for ns, fs in nested.items() for f, vs in fs.items() for v in vs)
    expect_eq(flat, sorted(props), "dict form lists exactly the properties")
    expect_eq([[ns, f, v] for ns, fs in nested.items() for f, vs in fs.items() for v in vs], sorted(props),
              "order of the dict form")
    expect_eq(unD(VariantDescription.from_dict(nested)), sorted(props), "dict round trip")
    expect_eq(unD(VariantDescription.deserialize(vd.serialize())), sorted(props), "serialization round trip")
    expect_eq([[r["namespace"], r["feature"], r["value"]] for r in vd.serialize()], sorted(props), "serialized properties")
    flip = [{k: p[k] for k in ks} for p, ks in zip(vd.serialize(), itertools.cycle(
        itertools.permutations(["value", "namespace", "feature"])), strict=False)]
    expect_eq(unD(VariantDescription.deserialize(flip)), sorted(props), "deserialization of reordered keys")
    for a in props:
        for b in case["other"]:
            pa, pb = VP(a), VP(b)
            expect_eq(pa == pb, a == b, "property equality", a=a, b=b)
            expect_eq(pa < pb, a < b, "property order", a=a, b=b)
            expect_eq(pa.feature_object == pb.feature_object, a[:2] == b[:2], "feature equality", a=a, b=b)
            expect_eq(pa.feature_object < pb.feature_object, a[:2] < b[:2], "feature order", a=a, b=b)
            if a == b:
                expect_eq(hash(pa), hash(pb), "hash of equal properties")
                expect_eq(pa.property_hash == pb.property_hash, True, "property_hash of equal properties")
            expect_eq(len({pa, pb}), 1 if a == b else 2, "set of two properties", a=a, b=b)
    expect_eq([unP(p) for p in sorted(VP(p) for p in props)], sorted(props), "sorting properties")


CHECKS = [
    Check("text", case_text, check_text, 16000, 400000,
          "valid texts with odd whitespace and damaged ones; non-trivial unless arbitrary text is rejected"),
    Check("fields", case_ctor, check_ctor, 16000, 400000,
          "constructor fields valid, nearly valid or of other types; non-trivial with at most one bad field"),
    Check("description", case_desc, check_desc, 5000, 100000,
          "property lists, permuted and with duplicates; non-trivial with >= 2 properties"),
]
