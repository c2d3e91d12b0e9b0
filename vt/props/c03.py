"""C03: a variant is kept exactly when the platform supports it."""
from hypothesis import strategies as st

from vt import gen, model
from vt.core import Check, expect, expect_eq
from vt.lib import VD, VP, unD


@st.composite
def case_filter(draw):
    uni = draw(gen.universe(3, 3, 3) if draw(st.integers(0, 5)) else gen.universe(5, 6, 5))
    props = gen.all_props(uni)
    variants = [draw(gen.prop_list(props, max_size=draw(st.sampled_from([4, 2, 8]))))
                for _ in range(draw(st.integers(1, 7)))]
    for _ in range(draw(st.integers(0, 2))):     # duplicates, in another property order
        v = draw(st.sampled_from(variants))
        variants.insert(draw(st.integers(0, len(variants))), draw(gen.shuffled(v)))
    if uni.get("a", {}).get("f") and tuple(uni["a"]["f"]) in gen.TWINS:
        for x in uni["a"]["f"]:
            variants.insert(draw(st.integers(0, len(variants))), [["a", "f", x]])
    lo = len(props) // 2 if draw(st.booleans()) else 0
    supported = draw(gen.prop_list(props, min_size=lo, max_size=len(props)))
    if supported and draw(st.booleans()):
        supported = supported + [supported[0]]
    feats = [[ns, f] for ns, fs in uni.items() for f in fs]
    # near misses: same names in other combinations
    cross = draw(st.lists(st.tuples(st.sampled_from(props), st.sampled_from(props), st.sampled_from(props)).map(
        lambda t: [t[0][0], t[1][1], t[2][2]]), max_size=4))
    supported = draw(st.sampled_from([supported, supported + cross]))
    fns = draw(st.none() | st.lists(st.sampled_from(list(uni) + ["other"]), max_size=2))
    ffe = draw(st.none() | st.lists(st.sampled_from(feats + [c[:2] for c in cross]), max_size=3))
    fpr = draw(st.none() | gen.prop_list(props, max_size=4))
    return {"variants": variants, "supported": supported, "fns": fns, "ffe": ffe, "fpr": fpr}


def check_filter(case, ctx):
    from variantlib.models.variant import VariantFeature
    from variantlib.resolver import lib
    from variantlib.resolver.filtering import (
        filter_variants_by_features, filter_variants_by_namespaces, filter_variants_by_property,
        remove_duplicates)

    ctx.sys_path([])
    variants, supported = case["variants"], case["supported"]
    fns, ffe, fpr = case["fns"], case["ffe"], case["fpr"]
    want = model.filter_variants(variants, supported, forbidden_ns=fns or [],
                                 forbidden_feat=ffe or [], forbidden_props=fpr or [])
    want = [sorted(v) for v in want]
    n = len(model.dedup(variants))
    ctx.nontrivial(0 < len(want) < n)
    ctx.label("all" if len(want) == n else "none" if not want else "some",
              "dup" if n < len(variants) else "nodup",
              *[k for k in ("fns", "ffe", "fpr") if case[k]])

    def vds():
        return [VD(v) for v in variants]

    F = [VariantFeature(*f) for f in ffe] if ffe is not None else None
    P = [VP(p) for p in fpr] if fpr is not None else None
    S = [VP(p) for p in supported]
    got = list(lib.filter_variants(vds(), S, fns, F, P))
    expect_eq([unD(v) for v in got], want, "filter_variants", case=case)
    # single filters
    expect_eq([unD(v) for v in remove_duplicates(vds())], [sorted(v) for v in model.dedup(variants)],
              "remove_duplicates")
    expect_eq([unD(v) for v in filter_variants_by_property(vds(), S, P)],
              [sorted(v) for v in variants if model.keep(v, supported, forbidden_props=fpr or [])],
              "filter_variants_by_property")
    if fns is not None:
        expect_eq([unD(v) for v in filter_variants_by_namespaces(vds(), fns)],
                  [sorted(v) for v in variants if not any(p[0] in fns for p in v)], "filter_variants_by_namespaces")
    if F is not None:
        expect_eq([unD(v) for v in filter_variants_by_features(vds(), F)],
                  [sorted(v) for v in variants if not any(p[:2] in ffe for p in v)], "filter_variants_by_features")
    # the complete resolver keeps the same ones (plus the null variant)
    full = lib.sort_and_filter_supported_variants(
        vds(), S, sorted({p[0] for p in supported}), forbidden_namespaces=fns,
        forbidden_features=F, forbidden_properties=P) if _contiguous(supported) else None
    if full is not None:
        names = sorted(map(str, (unD(v) for v in full)))
        expect_eq(names, sorted(map(str, [v for v in want if v] + [[]])), "variants kept by the resolver")
        expect(len(full) == len(set(v.hexdigest for v in full)), "resolver reports a variant twice")
    # filtering again changes nothing, and filtering is insensitive to the order of the supported list
    expect_eq([unD(v) for v in lib.filter_variants(got, S, fns, F, P)], want, "filtering twice")
    expect_eq([unD(v) for v in lib.filter_variants(vds(), S[::-1], fns, F, P)], want, "reversed supported list")


def _contiguous(supported):
    seen, last = set(), None
    for p in supported:
        k = tuple(p[:2])
        if k != last and k in seen:
            return False
        seen.add(k)
        last = k
    return len({tuple(p) for p in supported}) == len(supported)


CHECKS = [
    Check("filter", case_filter, check_filter, 9000, 250000,
          "variants, supported and forbidden sets over one small universe; non-trivial when some but not "
          "all distinct variants are kept"),
]
