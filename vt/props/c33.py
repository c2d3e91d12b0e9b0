"""C33: refusals and omissions name what is at fault."""
import copy
import json
import logging

from hypothesis import strategies as st

from vt import docmodel, docs, gen, model, plugs, wheels
from vt.core import Check, Skip, Violation, expect
from vt.lib import VD, VP, captured_logs, cli, errors
from vt.props.c09 import document
from vt.props.c11 import disagree
from vt.props.c12 import build, case_dir, outcomes


def said(exc) -> str:
    """Everything a user is told by an exception: its text and those of its causes."""
    out = []
    while exc is not None and len(out) < 20:
        out.append(f"{exc}\n" + "\n".join(str(a) for a in exc.args))
        exc = exc.__cause__ or exc.__context__
    return "\n".join(out)


def refusal(fn, what, types=Exception):
    try:
        r = fn()
    except types as exc:
        return said(exc)
    raise Violation(f"{what}: no error, result {r!r}"[:2000])


def names(text, needles, what, **info):
    for n in needles:
        if isinstance(n, list):
            expect(any(x in text for x in n), f"{what}: the message names none of {n}", message=text[:1500], **info)
        else:
            expect(n in text, f"{what}: the message does not name {n!r}", message=text[:1500], **info)


# -- documents --------------------------------------------------------------------

def other_type(x):
    if type(x) is dict:
        return [["x"], "x", 1, True, []]
    if type(x) is list:
        return ["x", 1, {"x": 1}, False, [1], [["x"]], [None]]
    if type(x) is bool:
        return ["true", 1, 0, [], ["x"]]
    return [1, ["x"], {"x": "y"}, True, 1.5]


def bad_text(dots):
    return gen.bad_token(dots).filter(lambda s: len(s.strip()) > 1)


def put_in(draw, lst, x) -> int:
    i = draw(st.integers(0, len(lst)))
    lst.insert(i, x)
    return i


@st.composite
def fault(draw, doc, flavour):
    """Introduce one fault; returns [kind, needles] (an inner list means any of these), or None."""
    dp, prov, stat, vs = (doc.get(k) for k in ("default-priorities", "providers", "static-properties", "variants"))
    kinds = ["bad-ns", "bad-feature-prio", "bad-value-prio", "type", "type", "type", "unknown", "requires", "extra-ns", "lost-ns",
             "lost-static", "extra-static", "lost-feature", "provider-name", "provider-text", "static-value", "static-feature"]
    if vs is not None:
        kinds += ["label", "null", "dup", "variant-token", "variant-token", "no-variants"]
    if flavour == "wheel":
        kinds += ["expected-label", "two"]
    kind = draw(st.sampled_from(kinds))
    pick = lambda x: draw(st.sampled_from(sorted(x))) if x else None
    ns = pick(prov or {})
    if kind == "bad-ns" and dp:
        t, lst = draw(bad_text(False)), dp["namespace"]
        i = put_in(draw, lst, t)
        return [kind, [t, f"default-priorities.namespace[{i}]"]]
    if kind == "bad-feature-prio" and dp and dp.get("feature"):
        t, k = draw(bad_text(False)), pick(dp["feature"])
        if draw(st.booleans()):
            dp["feature"][t] = []
            return [kind, [t, "default-priorities.feature"]]
        i = put_in(draw, dp["feature"][k], t)
        return [kind, [t, f"default-priorities.feature.{k}[{i}]"]]
    if kind == "bad-value-prio" and dp and dp.get("property"):
        k = pick(dp["property"])
        f = pick(dp["property"][k])
        if f is None or draw(st.integers(0, 2)) == 0:
            t = draw(bad_text(False))
            dp["property"][k][t] = ["1"]
            return [kind, [t, "default-priorities.property." + k]]
        t = draw(bad_text(True))
        i = put_in(draw, dp["property"][k][f], t)
        return [kind, [t, f"default-priorities.property.{k}.{f}[{i}]"]]
    if kind == "type":
        from vt.props.c09 import get, put, walk

        paths = [p for p in walk(doc) if p and p[0] != "$schema" and not (len(p) > 1 and isinstance(p[-1], int))]
        if not paths:
            return None
        p = draw(st.sampled_from(paths))
        if p[0] == "variants" and len(p) > 1 and isinstance(p[-1], int):
            return None
        put(doc, p, copy.deepcopy(draw(st.sampled_from(other_type(get(doc, p))))))
        depth = {"default-priorities": 2, "providers": 3}.get(p[0], 1)
        return [kind, [".".join(p[:min(depth, len(p))])]]
    if kind == "unknown" and dp is not None:
        t = draw(st.sampled_from(["namespaces", "feature_priorities", "zz", "enable_if", "install_time", "Requires", "plugin_api"]))
        if prov and draw(st.booleans()):
            prov[ns][t] = draw(st.sampled_from(["x", [], True]))
            return [kind, [t, f"providers.{ns}"]]
        dp[t] = draw(st.sampled_from([[], {}, "x"]))
        return [kind, [t, "default-priorities"]]
    if kind == "requires":
        inst = sorted(n for n, p in (prov or {}).items() if p.get("install-time", True))
        if inst:
            n = draw(st.sampled_from(inst))
            prov[n].pop("requires")
            if draw(st.booleans()):
                prov[n]["requires"] = []
            return [kind, [f"providers.{n}", "requires"]]
    if kind == "extra-ns" and dp is not None:
        n = draw(gen.ns_token().filter(lambda x: x not in (prov or {})))
        dp["namespace"].insert(draw(st.integers(0, len(dp["namespace"]))), n)
        return [kind, [n, "default-priorities.namespace"]]
    if kind == "lost-ns" and ns:
        dp["namespace"].remove(ns)
        return [kind, [ns, "default-priorities.namespace"]]
    if kind == "lost-static" and stat:
        n = pick(stat)
        del stat[n]
        return [kind, [n, "static-properties"]]
    if kind == "extra-static" and ns:
        free = [n for n in sorted(prov) if n not in (stat or {})]
        if free:
            n = draw(st.sampled_from(free))
            doc.setdefault("static-properties", {})[n] = {"f": ["1"]}
            return [kind, [n, "static-properties"]]
    if kind == "lost-feature" and stat:
        many = sorted(n for n, fs in stat.items() if len(fs) > 1)
        if many:
            n = draw(st.sampled_from(many))
            f = pick(stat[n])
            dp["feature"][n] = [x for x in dp["feature"][n] if x != f]
            return [kind, [f, f"static-properties.{n}"]]
    if kind == "provider-name" and ns:
        t = draw(bad_text(False))
        prov[t] = {"requires": ["x"]}
        return [kind, [t, "providers"]]
    if kind == "provider-text" and ns:
        key, t = draw(st.sampled_from([["plugin-api", "a b"], ["plugin-api", "m:a:b"], ["plugin-api", "m-n"], ["enable-if", "a\nb"],
                                       ["requires", "x\ty"], ["requires", "y\n"], ["enable-if", "\n"]]))
        if key == "requires":
            lst = prov[ns].setdefault("requires", [])
            key += f"[{put_in(draw, lst, t)}]"
        else:
            prov[ns][key] = t
        return [kind, [t, f"providers.{ns}.{key}"]]
    if kind in ("static-value", "static-feature") and stat:
        n = pick(stat)
        f = pick(stat[n])
        if kind == "static-value":
            t = draw(bad_text(True))
            i = put_in(draw, stat[n][f], t)
            return [kind, [t, f"static-properties.{n}.{f}[{i}]"]]
        t = draw(bad_text(False))
        stat[n][t] = ["1"]
        return [kind, [t, f"static-properties.{n}"]]
    if kind == "label" and vs:
        t = draw(st.sampled_from(["Upper", "a-b", "a b", "x" * 17, "\u00e9t\u00e9", "a::b", "l1\n"]))
        k = pick(vs)
        vs[t] = vs.pop(k)
        return [kind, [t, "variants"]]
    if kind == "null" and vs is not None:
        if draw(st.booleans()):
            vs["null"] = {"a": {"b": ["c"]}}
        else:
            vs["zz"] = draw(st.sampled_from([{}, {"a": {}}, {"a": {"b": []}}]))
        return [kind, ["null"]]
    if kind in ("dup", "variant-token") and vs:
        spots = [(k, n, f, i) for k, v in vs.items() for n, fs in v.items() for f, xs in fs.items() for i in range(len(xs))]
        if spots:
            k, n, f, i = draw(st.sampled_from(spots))
            xs = vs[k][n][f]
            if kind == "dup":
                val = xs[i]
                xs.insert(draw(st.integers(0, len(xs))), val)
                return [kind, [n, f, val]]
            what = draw(st.integers(0, 2))
            t = draw(bad_text(what == 2))
            if what == 0:
                vs[k][t] = vs[k].pop(n)
            elif what == 1:
                vs[k][n][t] = vs[k][n].pop(f)
            else:
                xs[i] = t
            return [kind, [t]]
    if kind == "no-variants" and vs is not None:
        del doc["variants"]
        return [kind, ["variants"]]
    if kind == "expected-label":
        have = next(iter(vs))
        want = draw(st.one_of(docs.label_text(), st.sampled_from([have + "x", have[:-1] or "y", "null"])).filter(lambda x: x != have))
        return [kind, [have, want]]
    if kind == "two":
        vs["zz.other"] = {"zz": {"zz": ["zz"]}}
        return [kind, [["2", "two"]]] if len(vs) == 2 else None
    return None


@st.composite
def case_doc(draw):
    flavour = draw(st.sampled_from(["index", "wheel", "project"]))
    for _ in range(3):
        doc = draw(document(flavour))
        f = draw(fault(doc, flavour))
        if f:
            break
    return {"flavour": flavour, "doc": doc, "fault": f}


def check_doc(case, ctx):
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    if not case["fault"]:
        raise Skip
    doc, flavour = case["doc"], case["flavour"]
    kind, needles = case["fault"]
    label = needles[1] if kind == "expected-label" else None
    if not docmodel.verdict(doc, flavour, label).startswith("bad"):
        raise Skip
    ctx.label(flavour, kind)
    ctx.nontrivial()
    parse = {"index": lambda: VariantsJson(doc), "wheel": lambda: VariantDistInfo(json.dumps(doc), label),
             "project": lambda: VariantPyProjectToml({"variant": doc})}[flavour]
    names(refusal(parse, f"document with {kind}"), needles, f"{flavour} document with {kind}")


# -- values given by the caller -----------------------------------------------------

@st.composite
def case_value(draw):
    uni = draw(gen.universe(3, 3, 3))
    base = draw(docs.info(uni, "index", foreign=False))
    other = draw(disagree(base, uni))
    v, w = (draw(gen.prop_list(gen.all_props(uni), min_size=1, max_size=4)) for _ in range(2))
    return {"what": draw(st.sampled_from(["property", "feature", "field", "label", "priority", "requires", "merge", "merge-label",
                                          "duplicate"])),
            "uni": uni, "base": base, "other": other, "v": v, "w": w, "text": draw(bad_text(True)), "at": draw(st.integers(0, 2)),
            "label": draw(docs.label_text()), "keep": draw(st.integers(0, 5))}


def check_value(case, ctx):
    from variantlib.api import get_variant_label
    from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
    from variantlib.resolver.sorting import sort_variant_properties
    from variantlib.variants_json import VariantsJson

    what, t, v, w = case["what"], case["text"], case["v"], case["w"]
    ve = errors().ValidationError
    ctx.label(what)
    ctx.nontrivial()
    if what in ("property", "feature"):
        cls, n = (VariantProperty, 3) if what == "property" else (VariantFeature, 2)
        parts = list(v[0][:n])
        parts[min(case["at"], n - 1)] = t
        text = " :: ".join(parts)
        if model.split_text(text, n):
            raise Skip
        names(refusal(lambda: cls.from_str(text), "bad text", ve), [text], "refused text")
    elif what == "field":
        parts = list(v[0])
        parts[case["at"]] = t
        names(refusal(lambda: VariantProperty(*parts), "bad field", ve), [t], "refused field")
    elif what == "duplicate":
        names(refusal(lambda: VariantDescription([VP(p) for p in [*v, v[0]]]), "duplicate", ve), v[0], "refused duplicate")
    elif what == "label":
        bad = ["A" + case["label"], t + "\n", case["label"] + "-x", "x" * 17][case["at"]]
        names(refusal(lambda: get_variant_label(VD(v), bad), "bad label", ve), [[bad, repr(bad)]], "refused label")
        names(refusal(lambda: get_variant_label(VD(v), "null"), "null label", ve), ["null"], "refused label")
    elif what == "priority":
        nss = sorted(case["uni"])
        keep = nss[:case["keep"] % len(nss)]
        lost = [n for n in nss if n not in keep]
        text = refusal(lambda: sort_variant_properties([VP(p) for p in gen.all_props(case["uni"])], keep), "no priority", ve)
        names(text, lost, "namespaces without a priority")
    elif what == "requires":
        vi = VariantsJson({**case["base"], "variants": {}})
        free = [x for x in ["nonesuch", "a_b_c", "zz9"] if x not in case["uni"]][0]
        names(refusal(lambda: vi.get_provider_requires({free, *list(case["uni"])[:case["at"]]}), "undeclared"), [free],
              "undeclared namespace")
    elif what == "merge":
        a, b = ({**d, "variants": {n: docs.nested(x)}} for d, n, x in ((case["base"], "l1", v), (case["other"], "l2", w)))
        if docmodel.verdict(b, "index") != "good":
            raise Skip
        ca, cb = docs.d_common(a), docs.d_common(b)
        diff = [k for k in ca if ca[k] != cb[k]]
        if not diff or (diff == ["providers"] and sorted(ca["providers"].items()) == sorted(cb["providers"].items())):
            raise Skip
        try:
            VariantsJson(a).merge(VariantsJson(b))
        except ve as exc:
            names(said(exc), [[k if k != "providers" else "provider" for k in diff]], "refused merge", diff=diff)
        else:
            raise Skip        # whether it must be refused is decided by C11
    else:
        if sorted(v) == sorted(w):
            raise Skip
        a, b = ({**case["base"], "variants": {case["label"]: docs.nested(x)}} for x in (v, w))
        names(refusal(lambda: VariantsJson(a).merge(VariantsJson(b)), "label used twice", ve), [case["label"]], "refused merge")


# -- wheels ---------------------------------------------------------------------------

WHEEL = {"di": "pkg-1.0.dist-info", "members": [{"name": "pkg-1.0.dist-info/WHEEL", "data": "61"}],
         "record": {"at": -1, "eol": "\n", "blank": False, "end": True, "quote": False, "compress": 8, "mode": 0o644}}


@st.composite
def case_gate(draw):
    uni = draw(gen.universe(3, 3, 3))
    doc = draw(docs.info(uni, "project", ("aot",), foreign=False))
    v = draw(gen.prop_list(docs.static_supported(doc) or gen.all_props(uni), min_size=0, max_size=3))
    for _ in range(draw(st.integers(1, 3))):
        base = draw(st.sampled_from(gen.all_props(uni)))
        p = draw(st.sampled_from([[base[0], base[1], "zz.9"], [base[0], "zz", base[2]], ["zz_no", base[1], base[2]],
                                  ["zy_no", "f", "1"], base]))
        if p not in v:
            v.append(list(p))
    return {"doc": doc, "v": v}


def check_gate(case, ctx):
    """A variant that is refused: the properties or features at fault are named."""
    from variantlib.commands.make_variant import make_variant

    doc, v = case["doc"], case["v"]
    stat = doc.get("static-properties", {})
    verdict = {tuple(p): (p[2] in stat[p[0]].get(p[1], []) if stat.get(p[0]) else None) for p in v}
    bad = [[" :: ".join(p) for p, x in verdict.items() if x is False], [" :: ".join(p) for p, x in verdict.items() if x is None],
           sorted({" :: ".join(p[:2]) for p in v for q in v if p != q and p[:2] == q[:2] and p[1] in stat.get(p[0], {})})]
    bad = [b for b in bad if b]
    src, out = ctx.dir / "pkg-1.0-py3-none-any.whl", ctx.mkdir("out")
    wheels.write(src, WHEEL)
    proj = ctx.dir / "pyproject.toml"
    proj.write_text(docs.toml({"variant": doc}))
    r = cli(make_variant, ["-f", src, "-o", out, "--pyproject-toml", proj, "--no-isolation",
                           *[x for p in v for x in ("-p", " :: ".join(p))]])
    ctx.nontrivial(bad)
    ctx.label(f"kinds={len(bad)}", f"named={sum(map(len, bad))}")
    if not bad:
        raise Skip
    expect(not r.ok, "a variant that must be refused was made", result=r)
    text = said(r.exc) + r.err
    # all faults of one kind are named; which kind comes first does not matter
    expect(any(all(x in text for x in b) for b in bad), "the message does not name what is at fault", message=text[:1500], want=bad)


@st.composite
def case_path(draw):
    return {"what": draw(st.sampled_from(["make-file", "make-out", "make-name", "make-project", "make-label", "unmake-file", "unmake-out", "unmake-name",
                                          "generate", "generate-file", "add-file", "add-input", "add-out", "add-name", "add-plain",
                                          "add-exists", "add-empty", "analyze-file", "analyze-suffix", "analyze-name", "hash",
                                          "update-file", "update-plugin", "config-env", "config-key", "config-value", "config-syntax", "command"])),
            "name": draw(st.text(alphabet="abcxyz019_", min_size=3, max_size=10)), "n": draw(st.integers(0, 2)),
            "v": draw(gen.free_props(3).filter(bool))}


def check_path(case, ctx):
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json
    from variantlib.commands.analyze_wheel import analyze_wheel
    from variantlib.commands.config.show import show
    from variantlib.commands.generate_index_json import generate_index_json
    from variantlib.commands.get_variant_hash import get_variant_hash
    from variantlib.commands.main import main
    from variantlib.commands.make_variant import make_variant
    from variantlib.commands.unmake_variant import unmake_variant
    from variantlib.commands.update_pyproject_toml import update_pyproject_toml

    ctx.sys_path([])
    what, name, n = case["what"], case["name"], case["n"]
    ctx.label(what)
    ctx.nontrivial()
    d = ctx.mkdir("in")
    base = f"{name}-1.0-py3-none-any"
    plain, variant = d / f"{base}.whl", d / f"{base}-l1.whl"
    meta = json.dumps({"variants": {"l1": docs.nested(case["v"])}, "default-priorities": {"namespace": []}, "providers": {}})
    wheels.write(plain, WHEEL)
    wheels.write(variant, {**WHEEL, "members": [*WHEEL["members"], {"name": "pkg-1.0.dist-info/variant.json", "data": meta.encode().hex()}]})
    proj = ctx.dir / "pyproject.toml"
    proj.write_text("[variant]\n")
    gone = d / f"no_{base}.whl" if n else d / f"no_{base}-l1.whl"
    missing = ctx.dir / f"missing_{name}"
    badname = d / [f"{name}.whl", f"{name}-1.0.whl", f"{name}-1.0-py3-none-any-UPPER.whl"][n]
    wheels.write(badname, WHEEL)
    mk = lambda f, o: [make_variant, ["-f", f, "-o", o, "--pyproject-toml", proj, "--null-variant"]]
    if what == "make-file":
        call, want = mk(gone, d), gone.name
    elif what == "make-out":
        call, want = mk(plain, missing), missing.name
    elif what == "make-name":
        call, want = mk(badname, d), badname.name
    elif what == "make-project":
        call = mk(plain, d)
        call[1][5] = missing
        want = missing.name
    elif what == "make-label":
        want = [f"{name}-x", f"{name.upper()}Y", "null"][n]
        call = [make_variant, [*mk(plain, d)[1][:-1], "-p", "a :: b :: c", "--variant-label", want]]
    elif what.startswith("unmake"):
        f, o, want = {"unmake-file": (gone, d, gone.name), "unmake-out": (variant, missing, missing.name),
                      "unmake-name": (badname, d, badname.name)}[what]
        call = [unmake_variant, ["-f", f, "-o", o]]
    elif what == "generate":
        call, want = [generate_index_json, ["-d", missing]], missing.name
    elif what == "generate-file":
        call, want = [generate_index_json, ["-d", plain]], plain.name
    elif what.startswith("add"):
        f, o, more, want = variant, d, [], ""
        if what == "add-file":
            f, want = gone, gone.name
        elif what == "add-input":
            more, want = ["-i", missing], missing.name
        elif what == "add-out":
            o, want = missing, missing.name
        elif what == "add-name":
            f, want = badname, badname.name
        elif what == "add-plain":
            f, want = plain, plain.name
        elif what == "add-exists":
            (d / f"{name}-1.0-variants.json").write_text("{}")
            want = f"{name}-1.0-variants.json"
        else:
            f = d / f"{base}-l2.whl"
            wheels.write(f, WHEEL)
            want = f.name
        call = [add_wheel_to_index_json, ["-f", f, "-o", o, *more]]
    elif what.startswith("analyze"):
        f = {"analyze-file": gone, "analyze-name": badname, "analyze-suffix": d / f"{name}.zip"}[what]
        if what == "analyze-suffix":
            f.write_bytes(b"x")
        call, want = [analyze_wheel, ["-i", f]], f.name
    elif what == "hash":
        text = [f"{name}::b", f"{name}:b:c", f"{name} :: B :: c"][n]
        call, want = [get_variant_hash, ["-p", text]], text
    elif what == "update-file":
        call, want = [update_pyproject_toml, ["-f", missing, "-d", "x"]], missing.name
    elif what == "update-plugin":
        call, want = [update_pyproject_toml, ["-f", proj, "-a", name]], name
    elif what == "config-env":
        env = ["USER", "GLOBAL", "LOCAL"][n]
        call, want = [show, [env]], env
    elif what in ("config-key", "config-value", "config-syntax"):
        text = f"zz_{name} = 1\n" if what == "config-key" else f"namespace_priorities = [\"a\", \"{name.upper()}-\"]\n"
        if what == "config-syntax":
            text = [f"{name} = \n", f"[{name}\n", f"a = 1\n{name}\n"][n]
        (ctx.cwd / "variants.toml").write_text(text)
        call, want = [show, []], str(ctx.cwd / "variants.toml")
    else:
        call, want = [main, [f"{name}-zz"]], f"{name}-zz"
    try:
        r = cli(*call)
    finally:
        (ctx.cwd / "variants.toml").unlink(missing_ok=True)
    expect(not r.ok, f"{what}: not refused", result=r)
    text = (said(r.exc) if r.exc else "") + r.err
    names(text, [want], what)
    if what == "config-key":
        names(text, [f"zz_{name}"], what)
    elif what == "config-value":
        names(text, [f"{name.upper()}-"], what)


def check_index(case, ctx):
    """Every wheel left out of an index is reported, and only these."""
    from variantlib.commands.generate_index_json import generate_index_json

    d = ctx.mkdir("wheels")
    good: dict = {}
    for w in case["files"]:
        build(d, w)
        if not w["bad"]:
            good.setdefault(w["namever"], []).append(w)
    with captured_logs() as records:
        r = cli(generate_index_json, ["-d", d])
    expect(r.ok, "generate-index-json failed", result=r)
    loud = [x.getMessage() for x in records if x.levelno >= logging.WARNING]
    left_out = [w for w in case["files"] if w["bad"] and w["bad"] != "plain-name"]
    shared = []
    for n, ws in good.items():
        index = json.loads((d / f"{n}-variants.json").read_text())
        mine: dict = {}
        for w in ws:
            doc = json.loads(w["text"])
            same = docs.d_variants(index).get(w["label"]) == docs.d_variants(doc)[w["label"]]
            if not same:
                left_out.append(w)
            mine.setdefault(json.dumps(sorted(docs.flatten(doc["variants"][w["label"]]))), set()).add(w["label"])
        if len(outcomes(ws)) == 1:
            shared += [x for x in mine.values() if len(x) > 1]
        elif any(len(x) > 1 for x in mine.values()):
            ctx.label("unclear")
            return
    ctx.nontrivial(left_out or shared)
    ctx.label(f"left-out={min(len(left_out), 3)}", "shared" if shared else "distinct", *{"bad-" + w["bad"] for w in left_out})
    for w in left_out:
        expect(any(w["file"] in m for m in loud), "a wheel left out of the index is not reported", wheel=w["file"], bad=w["bad"],
               messages=loud)
    for labels in shared:
        expect(any(all(x in m for x in labels) for m in loud), "labels sharing one variant are not reported", labels=sorted(labels),
               messages=loud)
    agree = all(len(outcomes(ws)) == 1 for ws in good.values())
    if not left_out and not shared and agree:
        expect(not loud, "usable wheels are reported as a problem", messages=loud)


# -- plugins --------------------------------------------------------------------------

@st.composite
def case_plugin(draw):
    uni = draw(gen.universe(2, 2, 2))
    specs = [draw(plugs.behaviour(ns, uni[ns], single=True).filter(lambda b: b["sup"])) for ns in uni]
    return {"specs": specs, "fault": draw(st.sampled_from(["import", "raise", "missing", "type", "namespace", "empty", "fixed", "multi",
                                                            "unsupported", "absent", "attr"])),
            "who": draw(st.integers(0, len(specs) - 1)), "n": draw(st.integers(0, 3)),
            "word": draw(st.text(alphabet="abcdefghij", min_size=8, max_size=10))}


def check_plugin(case, ctx):
    from variantlib.api import make_variant_dist_info
    from variantlib.plugins.loader import ListPluginLoader
    from variantlib.pyproject_toml import VariantPyProjectToml

    ctx.sys_path([])
    d = ctx.mkdir("plugins")
    specs, who, flt, word = case["specs"], case["who"], case["fault"], case["word"]
    for s in specs:
        s["aot"] = True
    bad = specs[who]
    ns = bad["ns"]
    if flt == "empty":
        bad["all"] = []
    elif flt == "fixed":
        bad["aot"] = [None, False][case["n"] % 2]
    elif flt == "multi":
        bad["sup"] = [[f, v, True] for f, v, _ in bad["sup"]]
    apis = [plugs.write(d, f"vtplug{i}", s) for i, s in enumerate(specs)]
    ctx.setenv("PYTHONPATH", str(d))
    ctx.label(flt, f"plugins={len(specs)}")
    ctx.nontrivial()
    mod = apis[who].partition(":")[0]
    path = d / (mod.replace(".", "/") + ".py")
    text = path.read_text()
    needles = [ns]
    if flt == "import":
        path.write_text(f"raise RuntimeError('{word}')\n" + text)
        needles = [mod, word]
    elif flt == "raise":
        path.write_text(text + f"\ndef _mk(lst):\n    raise RuntimeError('{word}')\n")
        needles = [word]
    elif flt == "missing":
        m = ["get_all_configs", "get_supported_configs"][case["n"] % 2]
        path.write_text(text.replace(m, "x_" + m))
        needles = [mod, m]
    elif flt == "type":
        path.write_text(text + f"\ndef _mk(lst):\n    return {['None', '(1, 2)', '[1]', chr(39) + 'x' + chr(39)][case['n']]}\n")
    elif flt == "namespace":
        (d / "vtdup.py").write_text(plugs.source({**bad, "form": "module"}))
        apis.append("vtdup")
    elif flt == "absent":
        apis[who] = word
        needles = [word]
    elif flt == "attr":
        apis[who] = f"{mod}:{word}"
        needles = [mod, word]
    prop = [ns, bad["sup"][0][0], bad["sup"][0][1][0]]
    if flt in ("fixed", "multi", "unsupported"):
        if flt == "unsupported":
            prop = [[ns, prop[1], "zz.9"], [ns, "zz", prop[2]]][case["n"] % 2]
            needles = [" :: ".join(prop)]
        elif flt == "multi":
            needles = [ns, bad["sup"][0][0]]
        info = {"default-priorities": {"namespace": [s["ns"] for s in specs]},
                "providers": {s["ns"]: {"requires": ["x"], "plugin-api": a, "install-time": False} for s, a in zip(specs, apis, strict=True)}}
        v = [prop] + [[s["ns"], s["sup"][0][0], s["sup"][0][1][0]] for s in specs if s is not bad]
        text = refusal(lambda: make_variant_dist_info(VD(v), VariantPyProjectToml({"variant": info})), flt)
    else:
        def query():
            with ListPluginLoader(apis) as loader:
                if flt == "missing" and case["n"] % 2:
                    return loader.get_supported_configs()
                return loader.get_all_configs()

        text = refusal(query, flt)
    names(text, needles, f"plugin fault {flt!r}")


CHECKS = [
    Check("document", case_doc, check_doc, 6000, 200000,
          "well-formed documents of three kinds with exactly one fault at a random place; all non-trivial"),
    Check("value", case_value, check_value, 5000, 100000,
          "refused property texts, fields, labels, merges, priorities and requirement queries; all non-trivial"),
    Check("gate", case_gate, check_gate, 1200, 30000,
          "variants with invalid, unknown or repeated single-value properties given to make-variant; non-trivial when refused"),
    Check("path", case_path, check_path, 1600, 20000,
          "commands given a missing, misnamed or invalid file, directory, property, provider or configuration; all non-trivial"),
    Check("index", case_dir, check_index, 1000, 30000,
          "directories of usable and unusable wheels; non-trivial when a wheel is left out or labels share a variant"),
    Check("plugin", case_plugin, check_plugin, 400, 8000,
          "one faulty plugin among one or two; all non-trivial"),
]
