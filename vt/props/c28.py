"""C28: provider requirements are reported completely and only as asked."""
import subprocess
import sys

from hypothesis import strategies as st

from vt import docs, gen, wheels
from vt.core import Check, expect_eq
from vt.lib import cli, fake_isolation, must_raise
from vt.props.c09 import document
from vt.props.c19 import WHEEL


@st.composite
def case_doc(draw):
    flavour = draw(st.sampled_from(["index", "wheel", "project"]))
    doc = draw(document(flavour))
    names = list(doc.get("providers", {}))
    sel = None
    if draw(st.integers(0, 3)):
        sel = [x[0] for x in draw(gen.prop_list([[n] for n in names], max_size=len(names)))]
        if draw(st.integers(0, 4)) == 0:
            sel.insert(draw(st.integers(0, len(sel))), draw(gen.ns_token()))
    return {"flavour": flavour, "doc": doc, "sel": sel, "aot": draw(st.sampled_from([None, True, False, False])),
            "frozen": draw(st.booleans())}


def check_doc(case, ctx):
    import json

    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    doc, sel = case["doc"], case["sel"]
    obj = {"index": lambda: VariantsJson(doc), "wheel": lambda: VariantDistInfo(json.dumps(doc)),
           "project": lambda: VariantPyProjectToml({"variant": doc})}[case["flavour"]]()
    prov = doc.get("providers", {})
    kw = {} if case["aot"] is None else {"include_aot_plugins": case["aot"]}
    if sel is not None:
        kw["namespaces"] = frozenset(sel) if case["frozen"] else set(sel)
    ctx.label(case["flavour"], "all" if sel is None else "selected", f"aot={case['aot']}")
    unknown = sel is not None and any(n not in prov for n in sel)
    if unknown:
        ctx.nontrivial()
        ctx.label("undeclared")
        must_raise((KeyError, ValueError), lambda: obj.get_provider_requires(**kw), "undeclared namespace")
        return
    want = {r for n in (prov if sel is None else sel) for r in prov[n].get("requires", [])
            if case["aot"] is not False or prov[n].get("install-time", True)}
    ctx.nontrivial(len(want) >= 1 and len({tuple(p.get("requires", [])) for p in prov.values()}) >= 2)
    expect_eq(obj.get_provider_requires(**kw), want, "requirements", selection=sel, aot=case["aot"])
    expect_eq(obj.get_provider_requires(**kw), want, "requirements asked twice")


@st.composite
def case_install(draw):
    doc = draw(document("project"))
    names = list(doc.get("providers", {}))
    used = [x[0] for x in draw(gen.prop_list([[n] for n in names], min_size=0, max_size=3))] if names else []
    if not used or draw(st.integers(0, 4)) == 0:
        used.insert(draw(st.integers(0, len(used))), draw(gen.ns_token()))
    v = draw(gen.shuffled([[n, draw(gen.feat_token()), draw(gen.val_token())] for n in used
                           for _ in range(draw(st.integers(1, 2)))]))
    v = [p for i, p in enumerate(v) if p not in v[:i]]
    return {"doc": doc, "variant": v, "installer": draw(st.sampled_from([None, "pip", "uv"])),
            "label": draw(st.none() | docs.label_text()), "use": draw(st.sampled_from(["isolated"] * 8 + ["skip", "none"]))}


def check_install(case, ctx):
    """Which requirements a build installs; the installation then fails."""
    from variantlib.commands.make_variant import make_variant

    doc, v = case["doc"], case["variant"]
    src, out, proj = ctx.dir / "pkg-1.0-py3-none-any.whl", ctx.mkdir("out"), ctx.dir / "pyproject.toml"
    wheels.write(src, WHEEL)
    proj.write_text(docs.toml({"variant": doc}))
    calls: list = []
    fake_isolation(ctx, sys.executable, calls, fail=subprocess.CalledProcessError(1, ["install"], stderr=b"no such thing"))
    args = ["-f", src, "-o", out, "--pyproject-toml", proj]
    for p in v:
        args += ["-p", " :: ".join(p)]
    if case["installer"]:
        args += ["--installer", case["installer"]]
    if case["label"]:
        args += ["--variant-label", case["label"]]
    if case["use"] == "skip":
        args.append("--skip-plugin-validation")
    elif case["use"] == "none":
        args = [*args[:4], "--pyproject-toml", proj, "--null-variant"]
    res = cli(make_variant, args)
    installed = {r for c in calls if c[0] == "install" for r in c[1]}
    prov = doc.get("providers", {})
    want = {r for p in v if p[0] in prov for r in prov[p[0]].get("requires", [])} if case["use"] == "isolated" else set()
    ctx.label(case["use"], f"installer={case['installer']}", f"required={min(len(want), 3)}")
    ctx.nontrivial(len(want) >= 1 and len({r for p in prov.values() for r in p.get("requires", [])}) > len(want))
    expect_eq(installed, want, "requirements installed by the build", result=res)
    if want:
        expect_eq(res.ok, False, "success of a build whose requirements cannot be installed", result=res)
        expect_eq(list(out.iterdir()), [], "wheels made by that build")
        expect_eq([c[0] for c in calls][-1], "exit", "the isolated environment is left")


CHECKS = [
    Check("requires", case_doc, check_doc, 8000, 200000,
          "documents of three kinds, namespace selections with and without undeclared ones; non-trivial when at "
          "least two providers differ and something is required, or a namespace is undeclared"),
    Check("installed", case_install, check_install, 800, 20000,
          "builds in an isolated environment (recorded, nothing is installed) of variants using some declared and "
          "undeclared providers, with each installer; non-trivial when some but not all requirements are needed"),
]
