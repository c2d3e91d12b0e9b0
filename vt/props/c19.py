"""C19: variant validation verdicts are correct and gate wheel creation."""
import sys

from hypothesis import strategies as st

from vt import docs, gen, plugs, wheels
from vt.core import Check, expect, expect_eq
from vt.lib import VD, cli, fake_isolation, unP

WHEEL = {"di": "pkg-1.0.dist-info", "members": [{"name": "pkg-1.0.dist-info/WHEEL", "data": "61"}],
         "record": {"at": -1, "eol": "\n", "blank": False, "end": True, "quote": False, "compress": 8, "mode": 0o644}}


@st.composite
def variant(draw, listed, uni):
    """Properties, mostly listed ones; near misses; undeclared namespaces; several values of a feature."""
    pool = gen.all_props(uni)
    v = draw(gen.prop_list(listed or pool, min_size=1, max_size=4))
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        k = draw(st.sampled_from(["pool", "value", "feature", "namespace", "other", "swap", "same-feature"]))
        base = draw(st.sampled_from(v or pool))
        p = list(base)
        if k == "pool":
            p = draw(st.sampled_from(pool))
        elif k == "value":
            p[2] = draw(st.one_of(gen.val_token(), gen.near_value(p[2])))
        elif k == "feature":
            p[1] = draw(gen.feat_token())
        elif k == "namespace":
            p[0] = draw(st.sampled_from(sorted(uni)))
        elif k == "swap":
            q = draw(st.sampled_from(pool))
            p = [p[0], p[1], q[2]]
        elif k == "same-feature":
            p = [p[0], p[1], draw(st.sampled_from(uni.get(p[0], {}).get(p[1], ["1"])))]
        else:
            p = [draw(gen.ns_token()), draw(gen.feat_token()), draw(gen.val_token())]
            if draw(st.integers(0, 2)) == 0:
                p[0] = "abi_dependency"          # supported without a provider, but no plugin knows it
                p[1] = draw(st.sampled_from(["pip", "packaging", p[1]]))
        if p not in v:
            v.insert(draw(st.integers(0, len(v))), p)
    return v


@st.composite
def case(draw, plugin):
    uni = draw(gen.universe(3, 3, 3))
    flavour = draw(st.sampled_from(["project", "project", "index", "wheel"]))
    doc = draw(docs.info(uni, flavour, ("plugin", "aot_plugin", "plugin", "aot") if plugin else ("aot",)))
    specs = {}
    for ns, p in doc["providers"].items():
        if p.get("requires"):
            all_ = draw(plugs.behaviour(ns, uni[ns]))
            # the plugin does not list everything
            for c in all_["all"]:
                if len(c[1]) > 1 and draw(st.booleans()):
                    c[1].pop(draw(st.integers(0, len(c[1]) - 1)))
            if len(all_["all"]) > 1 and draw(st.integers(0, 2)) == 0:
                all_["all"].pop()
            specs[ns] = all_
    listed = [p for s in specs.values() for p in plugs.flat(s["ns"], s["all"])] + docs.static_supported(doc)
    v = draw(variant(listed, uni))
    return {"doc": doc, "flavour": flavour, "specs": specs, "variant": v,
            "gate": draw(st.sampled_from(["skip", "validate", "validate", "isolated", "isolated"]))}


def configs(case):
    """{namespace: {feature: (values, multi)}} of the namespaces for which a provider answers."""
    out = {}
    used = {p[0] for p in case["variant"]}
    doc = case["doc"]
    for ns, p in doc["providers"].items():
        asked = ns in used and p.get("requires") and p.get("enable-if") not in docs.MARKERS_FALSE
        if asked:
            out[ns] = {f: (vs, m) for f, vs, m in case["specs"][ns]["all"]}
        elif not p.get("install-time", True) and doc.get("static-properties", {}).get(ns):
            out[ns] = {f: (vs, False) for f, vs in doc["static-properties"][ns].items()}
    return out


def check(case, ctx):
    from variantlib.api import validate_variant
    from variantlib.commands.make_variant import make_variant
    from variantlib.errors import ValidationError
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    ctx.sys_path([])
    doc, v, flavour = case["doc"], case["variant"], case["flavour"]
    d = ctx.mkdir("plugins")
    for i, (ns, s) in enumerate(case["specs"].items()):
        doc["providers"][ns]["plugin-api"] = plugs.write(d, f"vtplug{i}", s)
    ctx.setenv("PYTHONPATH", str(d))
    full = {**doc, "variants": {"null": {}}}
    vi = {"project": lambda: VariantPyProjectToml({"variant": doc}), "index": lambda: VariantsJson(full),
          "wheel": lambda: VariantDistInfo(__import__("json").dumps(full))}[flavour]()
    cfg = configs(case)
    want = sorted([p, None if p[0] not in cfg else p[2] in cfg[p[0]].get(p[1], ([], False))[0]] for p in v)
    viol = sorted({(p[0], p[1]) for p in v for q in v if p != q and p[:2] == q[:2]
                   and p[1] in cfg.get(p[0], {}) and not cfg[p[0]][p[1]][1]})
    verdicts = [x[1] for x in want]
    ctx.nontrivial(len(set(verdicts)) > 1 or viol)
    ctx.label(*{f"verdict={x}" for x in verdicts}, "violation" if viol else "no-violation", flavour)
    r = validate_variant(VD(v), variant_info=vi)
    expect_eq(sorted([unP(p), x] for p, x in r.results.items()), want, "verdicts")
    expect(all(x is None or type(x) is bool for x in r.results.values()), "verdict type", got=r.results)
    expect_eq(sorted((f.namespace, f.feature) for f in r.multi_value_violations), viol, "multi-value violations")
    expect_eq(sorted(map(unP, r.invalid_properties)), sorted(x[0] for x in want if x[1] is False), "invalid properties")
    expect_eq(sorted(map(unP, r.unknown_properties)), sorted(x[0] for x in want if x[1] is None), "unknown properties")
    fine = False not in verdicts and not viol
    expect_eq(bool(r.is_valid()), fine, "is_valid()")
    expect_eq(bool(r.is_valid(allow_unknown_plugins=False)), fine and None not in verdicts, "is_valid(no unknown)")
    # the gate
    if flavour != "project" or any(not p.get("install-time", True) and p.get("requires") for p in doc["providers"].values()):
        return
    src, out = ctx.dir / "pkg-1.0-py3-none-any.whl", ctx.mkdir("out")
    wheels.write(src, WHEEL)
    proj = ctx.dir / "pyproject.toml"
    proj.write_text(docs.toml({"variant": doc}))
    args = ["-f", src, "-o", out, "--pyproject-toml", proj]
    gate = case["gate"]
    for p in v:
        args += ["-p", " :: ".join(p)]
    calls: list = []
    if gate == "isolated":
        fake_isolation(ctx, sys.executable, calls)
    else:
        args.append("--no-isolation")
    if gate == "skip":
        args.append("--skip-plugin-validation")
    ok = gate == "skip" or (fine and None not in verdicts)
    res = cli(make_variant, args)
    ctx.label(f"gate-{gate}-{'open' if ok else 'shut'}")
    expect_eq(res.ok, ok, "success of make-variant", gate=gate, result=res, verdicts=want, violations=viol)
    if not ok:
        expect(isinstance(res.exc, (ValidationError, SystemExit)) or res.exc is None, "an unfit variant is not reported as such",
               gate=gate, result=res, verdicts=want, violations=viol)
    expect_eq(len(list(out.iterdir())), int(ok), "number of wheels produced")
    if gate == "isolated":
        expect_eq([c[0] for c in calls if c[0] != "install"], ["enter", "exit"], "use of the isolated environment")


CHECKS = [
    Check("static", lambda: case(False), check, 5000, 120000,
          "variants validated against frozen providers, near misses included, and made into wheels; non-trivial when "
          "verdicts differ or a single-value feature has several values"),
    Check("plugins", lambda: case(True), check, 800, 20000,
          "the same with real plugins, single- and multi-value features"),
]
