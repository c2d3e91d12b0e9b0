"""C11: merging wheels into an index is lossless, checked and all-or-nothing."""
import json

from hypothesis import strategies as st

from vt import docmodel, docs, gen, model
from vt.core import Check, expect, expect_eq
from vt.lib import errors, must_raise
from vt.props.c08 import snap


def strip(c):
    """Common data without empty lists and tables."""
    if isinstance(c, dict):
        out = {k: strip(v) for k, v in c.items()}
        return {k: v for k, v in out.items() if v not in ([], {}, None)}
    return c


@st.composite
def disagree(draw, doc, uni):
    """A still well-formed document whose common part differs (usually) from `doc`."""
    doc = json.loads(json.dumps(doc))
    dp = doc.setdefault("default-priorities", {})
    prov, stat = doc.get("providers", {}), doc.get("static-properties", {})
    if not prov:
        return doc
    ns = draw(st.sampled_from(list(prov)))
    kind = draw(st.sampled_from(["ns-order", "feat", "feat-order", "prop", "prop-order", "requires", "requires-order",
                                 "api", "marker", "optional", "static-value", "static-order", "static-feature",
                                 "new-provider", "install", "drop-provider"]))
    if kind == "ns-order":
        dp["namespace"] = dp["namespace"][1:] + dp["namespace"][:1]
    elif kind == "feat":
        dp.setdefault("feature", {}).setdefault(ns, []).append(draw(gen.feat_token()))
    elif kind == "feat-order":
        f = dp.setdefault("feature", {}).get(ns, [])
        f.reverse()
    elif kind == "prop":
        dp.setdefault("property", {}).setdefault(ns, {}).setdefault(draw(st.sampled_from(list(uni[ns]))), []).append(
            draw(gen.val_token()))
    elif kind == "prop-order":
        for vs in dp.get("property", {}).get(ns, {}).values():
            vs.reverse()
    elif kind == "requires":
        prov[ns]["requires"] = [*prov[ns].get("requires", []), "additional"]
    elif kind == "requires-order":
        prov[ns].setdefault("requires", []).reverse()
    elif kind == "api":
        prov[ns]["plugin-api"] = draw(st.sampled_from(["other.mod:Plugin", "m", "m:C"]))
    elif kind == "marker":
        prov[ns]["enable-if"] = draw(st.sampled_from(docs.MARKERS_TRUE))
    elif kind == "optional":
        prov[ns]["optional"] = not prov[ns].get("optional", False)
    elif kind == "static-value" and ns in stat:
        f = draw(st.sampled_from(list(stat[ns])))
        stat[ns][f] = [*stat[ns][f], draw(gen.val_token().filter(lambda v: v not in stat[ns][f]))]
    elif kind == "static-order" and ns in stat:
        for vs in stat[ns].values():
            vs.reverse()
    elif kind == "static-feature" and ns in stat:
        f = draw(gen.feat_token().filter(lambda x: x not in stat[ns]))
        stat[ns][f] = ["1"]
        lst = dp.setdefault("feature", {}).setdefault(ns, [])
        lst += [x for x in stat[ns] if x not in lst]
    elif kind == "new-provider":
        new = draw(gen.ns_token().filter(lambda x: x not in prov))
        prov[new] = {"requires": ["x"]}
        dp["namespace"].append(new)
    elif kind == "install" and not prov[ns].get("install-time", True):
        prov[ns].pop("install-time")
        prov[ns].setdefault("requires", []).append("r")
        stat.pop(ns, None)
    elif kind == "drop-provider":
        prov.pop(ns)
        dp["namespace"].remove(ns)
        stat.pop(ns, None)
    return doc


@st.composite
def case_history(draw):
    uni = draw(gen.universe(2, 3, 3))
    base = draw(docs.info(uni, "index", foreign=False))
    alts = [base]
    for _ in range(draw(st.sampled_from([1, 2, 0]))):
        d = draw(disagree(base, uni))
        if docmodel.verdict({**d, "variants": {}}, "index") == "good" and (
                strip(docs.d_common(d)) != strip(docs.d_common(base))):
            alts.append(d)
    pool = gen.all_props(uni)
    vs = [[]] if draw(st.booleans()) else []
    for _ in range(draw(st.integers(2, 5))):
        v = draw(gen.prop_list(pool, min_size=1, max_size=3))
        if v and sorted(v) not in [sorted(x) for x in vs]:
            vs.append(v)
    if draw(st.integers(0, 7)) == 0:
        for t in draw(st.sampled_from(gen.TWINS)):
            if [["a", "f", t]] not in vs:
                vs.append([["a", "f", t]])
    labels = draw(st.lists(docs.label_text(), min_size=1, max_size=3, unique=True))
    steps = []
    for _ in range(draw(st.sampled_from([4, 6, 8, 2]))):
        kind = draw(st.sampled_from(["wheel"] * 5 + ["index"]))
        common = draw(st.sampled_from([0, 0, 0, 0, len(alts) - 1, max(len(alts) - 2, 0)]))
        items = {}
        for _ in range(1 if kind == "wheel" else draw(st.integers(0, 3))):
            v = draw(st.sampled_from(vs))
            label = "null" if not v else draw(st.sampled_from([model.variant_hash(v), model.variant_hash(v), *labels]))
            items[label] = v
        steps.append({"kind": kind, "common": common, "variants": items})
    return {"alts": alts, "steps": steps, "start": draw(st.sampled_from(["wheel", "index"])),
            "perm": draw(gen.shuffled(range(len(steps))))}


def check_history(case, ctx):
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    ve = errors().ValidationError
    alts, steps = case["alts"], case["steps"]
    commons = [docs.d_common(a) for a in alts]

    def raw(step):
        return {**alts[step["common"]], "variants": docs.variants_json(step["variants"])}

    def arg(step):
        if step["kind"] == "wheel":
            return VariantDistInfo(json.dumps(raw(step)), next(iter(step["variants"])))
        return VariantsJson(raw(step))

    def start(step):
        if case["start"] == "wheel":
            return arg(step)
        return VariantsJson(json.loads(json.dumps(raw(step))))

    def state(obj):
        return [docs.lib_common(obj), {k: v for k, v in sorted(docs.lib_variants(obj).items())}]

    index = start(steps[0])
    common = commons[steps[0]["common"]]
    variants = {k: sorted(v) for k, v in steps[0]["variants"].items()}
    refused = accepted = repeated = 0
    merged = [steps[0]]
    for n, step in enumerate(steps[1:], 1):
        other = arg(step)
        before_other, before = snap(other), snap(index)
        conflict = (commons[step["common"]] != common
                    or any(k in variants and variants[k] != sorted(v) for k, v in step["variants"].items()))
        if conflict:
            refused += 1
            must_raise(ve, lambda i=index, o=other: i.merge(o), f"step {n}: merge of disagreeing metadata")
            expect_eq(snap(index), before, f"step {n}: refused merge changed the index")
        else:
            accepted += 1
            repeated += all(variants.get(k) == sorted(v) for k, v in step["variants"].items())
            index.merge(other)
            variants.update({k: sorted(v) for k, v in step["variants"].items()})
            merged.append(step)
        expect_eq(snap(other), before_other, f"step {n}: merge changed its argument")
        expect_eq(state(index), [common, dict(sorted(variants.items()))], f"step {n}: index after merge")
        if not conflict:
            index.merge(arg(step))
            expect_eq(state(index), [common, dict(sorted(variants.items()))], f"step {n}: merging the same wheel twice")
    ctx.nontrivial(accepted >= 1 and (refused or repeated or len(variants) >= 3))
    ctx.label(f"accepted={min(accepted, 4)}", f"refused={min(refused, 4)}", "repeat" if repeated else "no-repeat")
    # independence of the order
    order = [steps[i] for i in case["perm"] if any(steps[i] is m for m in merged)]
    second = start(order[0])
    for step in order[1:]:
        second.merge(arg(step))
    expect_eq(second.to_str(), index.to_str(), "index merged in another order")
    back = VariantsJson(json.loads(index.to_str()))
    expect_eq(state(back), state(index), "merged index read back")


CHECKS = [
    Check("history", case_history, check_history, 6000, 200000,
          "histories of merges of agreeing and disagreeing wheel/index metadata; non-trivial when something is "
          "accepted and something is refused, repeated or at least 3 variants result"),
]
