"""C18: caching of provider answers is invisible."""
import os
import pathlib
import sys

from hypothesis import strategies as st

from vt import docs, gen, plugs
from vt.core import Check, Violation, expect, expect_eq

KINDS = ["all", "supported", "supported", "fixed", "namespaces", "resolve", "resolve", "check", "validate", "dist-info"]


@st.composite
def case(draw):
    uni = draw(gen.universe(3, 2, 3))
    interps = []
    for _ in range(draw(st.integers(2, 3))):
        bs = []
        for ns, fs in uni.items():
            if interps and draw(st.integers(0, 9)) == 0:
                bs.append(None)                      # not installed there
                continue
            b = draw(plugs.behaviour(ns, fs, single=draw(st.booleans())))
            b["form"] = "class"
            b["aot"] = draw(st.sampled_from([True, True, False]))
            bs.append(b)
        interps.append(bs)
    steps = []
    for _ in range(draw(st.integers(3, 8))):
        if steps and draw(st.integers(0, 2)) == 0:
            s = dict(steps[draw(st.integers(0, len(steps) - 1))])
            # the same query again, or differing in one respect
            k = draw(st.sampled_from(["none", "who", "kind", "sel"]))
        else:
            s, k = {}, "all"
        if k in ("who", "all"):
            s["who"] = draw(st.integers(0, len(interps) - 1))
        if k in ("kind", "all"):
            s["kind"] = draw(st.sampled_from(KINDS))
        if k in ("sel", "all"):
            s["sel"] = [x[0] for x in draw(gen.prop_list([[i] for i in range(len(uni))], min_size=1, max_size=len(uni)))]
        # what the caller does with the answer it was given
        s["spoil"] = draw(st.sampled_from(["no", "no", "append", "reverse", "clear", "replace"]))
        if k == "all":
            s["via"] = draw(st.sampled_from(["list", "info"]))
        steps.append(s)
    return {"uni": uni, "interps": interps, "steps": steps, "default": draw(st.booleans()),
            "where": draw(st.sampled_from(["flat", "env", "env", "link", "link"])),
            "nested": draw(st.booleans())}


def check(case, ctx):
    from variantlib import api
    from variantlib.plugins import loader as L
    from variantlib.pyproject_toml import VariantPyProjectToml
    from vt.lib import VD

    ctx.sys_path([])
    ctx.chdir(ctx.mkdir("cwd"))
    uni, names = case["uni"], list(case["uni"])
    pythons = []
    for i, bs in enumerate(case["interps"]):
        d = ctx.mkdir(f"site{i}")
        for j, b in enumerate(bs):
            if b is not None:
                plugs.write(d, f"vtplug{j}", b)
        if i == 0 and case["default"]:
            # the interpreter of this process
            ctx.setenv("PYTHONPATH", str(d))
            pythons.append(None)
        else:
            script = f"#!/bin/sh\nPYTHONPATH={d} exec {sys.executable} -S \"$@\"\n"
            w = ctx.dir / f"py{i}"
            if case["where"] != "flat":
                # environments: the interpreters have the same name
                w = ctx.mkdir(f"env{i}") / "bin" / "python"
                w.parent.mkdir()
            if case["where"] == "link":
                # and are links to the same file, which finds out who it is from the path it is run by
                base = ctx.dir / "python-base"
                base.write_text(f"#!/bin/sh\nPYTHONPATH=$(cat $(dirname $0)/site) exec {sys.executable} -S \"$@\"\n")
                base.chmod(0o755)
                (w.parent / "site").write_text(str(d))
                w.symlink_to(base)
            else:
                w.write_text(script)
                w.chmod(0o755)
            pythons.append(w)
    ctx.nontrivial(len({(s["who"], s["kind"]) for s in case["steps"]}) > 1 and len({s["who"] for s in case["steps"]}) > 1)
    ctx.label("interpreters-" + case["where"], f"steps={len(case['steps'])}", *{"kind-" + s["kind"] for s in case["steps"]},
              *{"answer-" + s["spoil"] for s in case["steps"] if s["kind"] in ("all", "supported", "fixed")})
    for n, s in enumerate(case["steps"]):
        py, bs, kind = pythons[s["who"]], case["interps"][s["who"]], s["kind"]
        sel = {names[j]: bs[j] for j in s["sel"]}
        missing = any(b is None for b in sel.values())
        apis = [f"vtplug{j}:Plugin" for j in s["sel"]]
        doc = {"default-priorities": {"namespace": list(sel)},
               "providers": {ns: {"requires": ["x"], "plugin-api": a} for ns, a in zip(sel, apis, strict=True)}}

        def make(s=s, apis=apis, doc=doc, py=py):
            if s["via"] == "list":
                return L.ListPluginLoader(apis, venv_python_executable=py)
            return L.PluginLoader(variant_info=VariantPyProjectToml({"variant": doc}), venv_python_executable=py,
                                  include_aot_plugins=True)

        def view(res, how=s["spoil"]):
            v = {ns: [[c.name, list(c.values), c.multi_value] for c in pc.configs] for ns, pc in res.items()}
            for pc in res.values():
                for c in pc.configs:
                    if how == "append":
                        c.values.append("spoilt")
                    elif how == "reverse":
                        c.values.reverse()
                    elif how == "replace":
                        c.values[:] = ["spoilt"]
                if how == "append":
                    pc.configs.append(pc.configs[0])
                elif how == "reverse":
                    pc.configs.reverse()
                elif how == "clear":
                    pc.configs.clear()
            if how == "clear":
                res.clear()
            return v

        bad = missing
        sup = {ns: b["sup"] for ns, b in sel.items() if b and b["sup"]}
        props = [[ns, f, v] for ns in sel for f, vs in uni[ns].items() for v in vs]
        flat = [p for ns, c in sup.items() for p in plugs.flat(ns, c)]
        try:
            if kind in ("all", "supported", "fixed", "namespaces"):
                if kind == "fixed":
                    bad = bad or not all(b["aot"] for b in sel.values())
                with make() as ldr:
                    if kind == "namespaces":
                        got, want = sorted(ldr.namespaces), sorted(sel)
                    elif kind == "all":
                        got = view(ldr.get_all_configs())
                        want = {ns: b["all"] for ns, b in sel.items()} if not bad else None
                    else:
                        got, want = view(ldr.get_supported_configs(require_fixed=kind == "fixed")), sup
            elif kind == "resolve":
                vs = {f"l{i}": docs.nested([p]) for i, p in enumerate(props)}
                idx = {**doc, "variants": vs}
                got = api.get_variants_by_priority(variants_json=idx, venv_python_executable=py and str(py))
                want = [ls[0] for ls, _ in docs.resolve(idx, [p for ns in sel for p in flat if p[0] == ns])[0]]
            elif kind == "check":
                got = [api.check_variant_supported(vdesc=VD([p]), variant_info=VariantPyProjectToml({"variant": doc}),
                                                   venv_python_executable=py) for p in props]
                want = [p in flat for p in props]
            elif kind == "validate":
                r = api.validate_variant(VD(props[:6]), VariantPyProjectToml({"variant": doc}), venv_python_executable=py)
                got = sorted([p.to_str(), v] for p, v in r.results.items())
                # only the namespaces of the variant are asked
                asked = {p[0] for p in props[:6]}
                bad = any(sel[ns] is None for ns in asked)
                want = None if bad else sorted([" :: ".join(p), any(c[0] == p[1] and p[2] in c[1] for c in sel[p[0]]["all"])]
                                               for p in props[:6])
            else:
                for p in doc["providers"].values():
                    p["install-time"] = False
                v = [next((p for p in flat if p[0] == ns), [ns, "f", "v"]) for ns in sel]
                bad = bad or any(not b["aot"] or not b["sup"] or any(m for _, _, m in b["sup"]) for b in sel.values())
                text = api.make_variant_dist_info(VD(v), VariantPyProjectToml({"variant": doc}), venv_python_executable=py)
                import json

                got = json.loads(text)["static-properties"]
                want = {ns: {f: vs for f, vs, _ in b["sup"]} for ns, b in sel.items()} if not bad else None
        except Exception as exc:
            expect(bad, "a query fails", step=n, kind=kind, error=repr(exc))
            continue
        expect(not bad, "no error from a query that must fail", step=n, kind=kind, got=got)
        expect_eq(got, want, f"answer to query {n} ({kind} of interpreter {s['who']})", steps=case["steps"])


CHECKS = [
    Check("history", case, check, 480, 12000,
          "histories of 3-8 queries over 2-3 interpreters with different plugins, plugin selections and query kinds, "
          "compared with a model without cache; non-trivial when at least two interpreters are asked differing queries"),
]
