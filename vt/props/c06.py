"""C06: the null variant is always available and always last."""
from hypothesis import strategies as st

from vt import docs, gen
from vt.core import Check, expect, expect_eq
from vt.lib import VD, VP, errors, unD
from vt.props import c05
from vt.props.c04 import priorities


@st.composite
def case_index(draw):
    uni, doc, config = draw(c05.index_case())
    null = draw(st.sampled_from(["absent", "first", "last", "keep", "only", "no-variants"]))
    vs = {k: v for k, v in doc["variants"].items() if k != "null"}
    if null == "keep":
        vs = doc["variants"]
    elif null == "first":
        vs = {"null": {}, **vs}
    elif null == "last":
        vs["null"] = draw(st.sampled_from([{}, {"a": {}}, {"a": {"b": []}}]))
    elif null == "only":
        vs = {"null": {}}
    elif null == "no-variants":
        vs = {}
    doc["variants"] = vs
    return {"doc": doc, "config": config}


def check_index(case, ctx):
    from variantlib.api import get_variants_by_priority

    ctx.sys_path([])
    doc = case["doc"]
    c05.put_config(ctx, case["config"])
    got = get_variants_by_priority(variants_json=doc)
    n = len(doc["variants"])
    ctx.label("listed" if "null" in doc["variants"] else "implicit", f"offered={min(len(got), 6)}")
    ctx.nontrivial(n >= 1)
    expect(got and got[-1] == "null", "null variant is not the last one offered", got=got)
    expect_eq(got.count("null"), 1, "null variant offered more than once", got=got)
    for label in got[:-1]:
        expect(docs.flatten(doc["variants"][label]), "a variant without properties precedes null", got=got)


@st.composite
def case_resolver(draw):
    uni = draw(gen.universe(3, 3, 3))
    props = gen.all_props(uni)
    supported = []
    for ns in draw(gen.shuffled(uni)):
        for f in draw(gen.shuffled(uni[ns])):
            vals = draw(gen.prop_list([[v] for v in uni[ns][f]], max_size=4))
            supported += [[ns, f, v[0]] for v in vals]
    variants = [draw(gen.prop_list(draw(st.sampled_from([supported or props, props])), max_size=3))
                for _ in range(draw(st.integers(0, 6)))]
    for _ in range(draw(st.integers(0, 2))):
        variants.insert(draw(st.integers(0, len(variants))), [])
    feat, prop = draw(priorities(uni))
    return {"supported": supported, "variants": variants, "ns": draw(gen.shuffled(uni)), "feat": feat, "prop": prop,
            "fns": draw(st.none() | st.just(list(uni)[:1])),
            "ffe": draw(st.none() | st.just([p[:2] for p in props[:2]])),
            "fpr": draw(st.none() | gen.prop_list(props, max_size=4)),
            "packages": draw(st.sampled_from([None, "a==1", "a==1,b==2.0"]))}


def check_resolver(case, ctx):
    from variantlib.models.variant import VariantFeature
    from variantlib.resolver.lib import sort_and_filter_supported_variants

    ctx.sys_path([])
    ctx.setenv("VARIANT_ABI_DEPENDENCY", case["packages"])
    got = [unD(v) for v in sort_and_filter_supported_variants(
        [VD(v) for v in case["variants"]], [VP(p) for p in case["supported"]], case["ns"], case["feat"], case["prop"],
        forbidden_namespaces=case["fns"],
        forbidden_features=None if case["ffe"] is None else [VariantFeature(*f) for f in case["ffe"]],
        forbidden_properties=None if case["fpr"] is None else [VP(p) for p in case["fpr"]])]
    nulls = case["variants"].count([])
    ctx.label(f"nulls={nulls}", f"kept={min(len(got), 5)}", "nothing-supported" if not case["supported"] else "some")
    ctx.nontrivial(len(got) > 1 or not case["supported"] or nulls > 1)
    expect(got and got[-1] == [], "null variant is not last", got=got)
    expect_eq(got.count([]), 1, "null variant repeated", got=got)


CHECKS = [
    Check("index", case_index, check_index, 3000, 90000,
          "index documents with the null variant absent / first / last / alone / written in odd ways; "
          "non-trivial when the index lists some variant"),
    Check("resolver", case_resolver, check_resolver, 6000, 150000,
          "variant lists with 0-2 null variants, forbidden items, nothing supported; non-trivial when null is "
          "not simply the only answer to a non-trivial platform"),
]
