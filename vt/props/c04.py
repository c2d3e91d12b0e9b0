"""C04: supported variants are ordered best first, exactly by priorities."""
from hypothesis import strategies as st

from vt import gen, model
from vt.core import Check, expect_eq
from vt.lib import VD, VP, errors, must_raise, unD, unP


@st.composite
def priorities(draw, uni, config=False):
    """Three levels over a universe: partial, foreign, duplicated, empty or absent."""
    def plist(pool, tok):
        items = draw(gen.prop_list([[x] for x in pool], max_size=len(pool)))
        items = [x[0] for x in items]
        if draw(st.integers(0, 3)) == 0:
            items.insert(draw(st.integers(0, len(items))), draw(tok))
        if items and draw(st.integers(0, 7)) == 0:
            items.append(items[0])
        return items

    feat = None
    if draw(st.integers(0, 4)):
        feat = {ns: plist(list(fs), gen.feat_token()) for ns, fs in uni.items() if draw(st.integers(0, 3))}
        if draw(st.integers(0, 5)) == 0:
            feat[draw(gen.ns_token())] = [draw(gen.feat_token())]
    prop = None
    if draw(st.integers(0, 4)):
        prop = {ns: {f: plist(vs, gen.val_token()) for f, vs in fs.items() if draw(st.integers(0, 2))}
                for ns, fs in uni.items() if draw(st.integers(0, 3))}
    return feat, prop


@st.composite
def case_order(draw):
    big = draw(st.integers(0, 7)) == 7
    uni = draw(gen.universe(6, 6, 7) if big else gen.universe(3, 3, 4, large=14))
    # supported properties in provider order: features contiguous, subset of values
    supported = []
    for ns in draw(gen.shuffled(uni)):
        for f in draw(gen.shuffled(uni[ns])):
            vals = draw(gen.prop_list([[v] for v in uni[ns][f]], min_size=0 if draw(st.integers(0, 3)) == 3 else 1,
                                      max_size=draw(st.sampled_from([9, 70, 70]))))
            if vals and draw(st.integers(0, 7)) == 0:
                # reported more than once
                vals = vals + draw(st.lists(st.sampled_from(vals), min_size=1, max_size=2))
            supported += [[ns, f, v[0]] for v in vals]
    ns_prio = draw(gen.shuffled(uni))
    missing = draw(st.integers(0, 9)) == 0
    if missing:
        ns_prio = ns_prio[1:]
    if draw(st.integers(0, 3)) == 0:
        ns_prio.insert(draw(st.integers(0, len(ns_prio))), draw(gen.ns_token()))
    if ns_prio and draw(st.integers(0, 5)) == 0:
        ns_prio.append(ns_prio[0])
    feat, prop = draw(priorities(uni))
    props = gen.all_props(uni)
    # variants mostly made of supported properties, so that most of them survive
    variants = []
    once = [list(p) for p in dict.fromkeys(map(tuple, supported))]
    if len(supported) > 9 and draw(st.booleans()):
        f = draw(st.sampled_from(supported))[:2]
        variants += [[p] for p in draw(gen.prop_list([p for p in once if p[:2] == f], min_size=2, max_size=5))]
    for _ in range(draw(st.integers(2, 9))):
        v = draw(gen.prop_list(once or props, max_size=5))
        extra = draw(gen.prop_list(props, max_size=1)) if draw(st.booleans()) else []
        variants.append(v + [p for p in extra if p not in v])
    return {"supported": supported, "ns": ns_prio, "feat": feat, "prop": prop, "variants": variants}


def check_order(case, ctx):
    from variantlib.resolver.lib import sort_and_filter_supported_variants
    from variantlib.resolver.sorting import sort_variant_properties, sort_variants_descriptions

    ctx.sys_path([])
    ve = errors().ValidationError
    supported, ns, feat, prop = case["supported"], case["ns"], case["feat"], case["prop"]
    S = [VP(p) for p in supported]
    if any(p[0] not in ns for p in supported):
        ctx.label("missing-namespace")
        ctx.nontrivial()
        must_raise(ve, lambda: sort_variant_properties(S, ns, feat, prop), "namespace without a priority")
        must_raise(ve, lambda: sort_and_filter_supported_variants(
            [VD(v) for v in case["variants"]], S, ns, feat, prop), "namespace without a priority")
        return
    want_props = model.order_properties(supported, ns, feat, prop)
    got = sort_variant_properties(S, ns, feat, prop)
    expect_eq(list(dict.fromkeys(tuple(unP(p)) for p in got)), list(dict.fromkeys(map(tuple, want_props))),
              "order of supported properties")
    ordered_vps = [VP(p) for p in want_props]
    kept = model.filter_variants(case["variants"], supported)
    want = [sorted(v) for v in sorted(kept, key=lambda v: model.rank(v, want_props))]
    ranks = [model.rank(v, want_props) for v in kept]
    ctx.nontrivial(len(set(ranks)) >= 2 and [sorted(v) for v in kept] != want)
    ctx.label(f"kept={min(len(kept), 6)}", "tie" if len(set(ranks)) < len(ranks) else "no-tie",
              "feat" if feat else "nofeat", "prop" if prop else "noprop")
    got = sort_variants_descriptions([VD(v) for v in kept], ordered_vps)
    expect_eq([unD(v) for v in got], want, "order of variants", ordered=want_props)
    got = sort_and_filter_supported_variants([VD(v) for v in case["variants"]], S, ns, feat, prop)
    full = [v for v in case["variants"]]
    if [] not in full:
        full.append([])
    kept = model.filter_variants(full, supported)
    want = [sorted(v) for v in sorted(kept, key=lambda v: model.rank(v, want_props))]
    expect_eq([unD(v) for v in got], want, "resolver order", ordered=want_props)


CHECKS = [
    Check("order", case_order, check_order, 8000, 250000,
          "supported properties, priorities at three levels and variants over one universe; non-trivial when "
          "sorting changes the order of the kept variants"),
]
