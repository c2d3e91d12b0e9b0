"""C26: the single-variant support check agrees with resolution."""
import json

from hypothesis import strategies as st

from vt import docs, model
from vt.core import Check, expect, expect_eq
from vt.lib import VD, errors, must_raise
from vt.props import c05, c07
from vt.props.c05 import index_case, install_plugins, provider_enabled, put_config, supported_now


@st.composite
def packages(draw):
    """Installed packages and VARIANT_ABI_DEPENDENCY; matching and near-miss properties."""
    dirs, pool, _ = draw(c07.dists())
    env = None
    if draw(st.booleans()):
        env = []
        for _ in range(draw(st.integers(0, 2))):
            v = draw(c07.version())
            name = draw(st.sampled_from(pool))
            env.append({"text": f"{name}=={v[0]}", "name": name, "version": v})
    eff = c07.effective(dirs, env)
    props = [[c07.NS, f, v] for f, vs in eff.items() for v in vs]
    near = [[c07.NS, f, v + ".0"] for f, vs in eff.items() for v in vs[-1:]] + [[c07.NS, "absent_pkg", "1"]]
    return {"dirs": dirs, "env": env}, props, near


@st.composite
def with_abi(draw, doc, props, near, extra=()):
    vs = {k: docs.flatten(x) for k, x in doc["variants"].items()}
    for x in list(vs.values())[:3] + [list(e) for e in extra]:
        more = draw(st.sampled_from((props * 3 + near) or near))
        x2 = [*x, more] if x is not None else [more]
        if not any(sorted(x2) == sorted(y) for y in vs.values()):
            vs.setdefault(model.variant_hash(x2), x2)
    doc["variants"] = docs.variants_json(vs)
    return doc


@st.composite
def case_static(draw):
    _uni, doc, config = draw(index_case(big=False))
    pk, props, near = draw(packages()) if draw(st.integers(0, 2)) else ({"dirs": [], "env": None}, [], [])
    if props or near:
        doc = draw(with_abi(doc, props, near))
    return {**pk, "doc": doc, "config": config, "specs": {}, "optional": draw(st.sampled_from([False, True, [], ["a"]])),
            "info": draw(st.sampled_from(["index", "index", "wheel", "project"]))}


@st.composite
def case_plugins(draw):
    case = draw(c05.case_plugins())
    pk, props, near = draw(packages()) if draw(st.booleans()) else ({"dirs": [], "env": None}, [], [])
    if props or near:
        case["doc"] = draw(with_abi(case["doc"], props, near))
    return {**case, **pk, "info": draw(st.sampled_from(["index", "index", "wheel"]))}


def check(case, ctx):
    from variantlib.api import check_variant_supported, get_variants_by_priority
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    eff = c07.setup(case, ctx)
    doc, config, specs, optional = case["doc"], case["config"], case["specs"], case["optional"]
    put_config(ctx, config)
    install_plugins(ctx, doc, specs)
    variants = {k: docs.flatten(v) for k, v in doc["variants"].items()}
    offered = get_variants_by_priority(variants_json=doc, enable_optional_plugins=optional)
    sup = (supported_now(doc, specs, optional) if specs or not any(
        p.get("install-time", True) for p in doc.get("providers", {}).values()) else [])
    sup += [[c07.NS, f, v] for f, vs in eff.items() for v in vs]
    supset = {tuple(p) for p in sup}

    def model_says(props):
        feats = {(p[0], p[1]) for p in props}
        return all(any(tuple(p) in supset for p in props if (p[0], p[1]) == f) for f in feats)

    ctx.nontrivial(len(variants) >= 3 and 0 < len([k for k in variants if k in offered]) < len(variants))
    ctx.label("plugins" if specs else "static", f"info-{case['info']}", f"optional={type(optional).__name__}",
              "packages" if eff else "no-packages",
              *(["disabled-provider"] if any(not provider_enabled(ns, p, optional) for ns, p in doc.get("providers", {}).items())
                else []))
    common = {k: v for k, v in doc.items() if k not in ("variants", "$schema")}
    whole = VariantsJson(doc)
    for label, props in variants.items():
        one = {**doc, "variants": {label: doc["variants"][label]}}
        if case["info"] == "index":
            infos = [(VariantsJson(one), None), (whole, props)]
        elif case["info"] == "wheel":
            infos = [(VariantDistInfo(json.dumps(one)), None), (VariantDistInfo(json.dumps(one), label), props)]
        else:
            # project tables list static properties of providers without plugin only
            try:
                vi = VariantPyProjectToml({"variant": common})
            except errors().ValidationError:
                infos = [(whole, props)]
            else:
                infos = [(vi, props)]
        for vi, vd in infos:
            got = check_variant_supported(variant_info=vi, enable_optional_plugins=optional,
                                          **({} if vd is None else {"vdesc": VD(vd)}))
            expect(got is True or got is False, "answer is not a truth value", got=got)
            expect_eq(got, label in offered, "support of the variant, against resolution", label=label, props=props,
                      offered=offered)
            expect_eq(got, model_says(props), "support of the variant", label=label, props=props, supported=sorted(supset))
    expect_eq(check_variant_supported(vdesc=VD([]), variant_info=whole, enable_optional_plugins=optional), True,
              "support of the null variant")
    if len(variants) != 1:
        must_raise((ValueError, TypeError), lambda: check_variant_supported(variant_info=whole), "variant left open")
    # a variant the index does not contain
    other = [["zz_absent", "f", "1"]]
    expect_eq(check_variant_supported(vdesc=VD(other), variant_info=whole, enable_optional_plugins=optional),
              model_says(other), "support of a variant of an undeclared namespace")


CHECKS = [
    Check("static", case_static, check, 2400, 70000,
          "indexes of frozen providers and installed packages, each variant checked through index, wheel and project "
          "metadata; non-trivial with at least three variants, some supported and some not"),
    Check("plugins", case_plugins, check, 480, 12000,
          "indexes with real plugins, optional and conditional ones included; non-trivial as above"),
]
