"""C23: variant labels are unambiguous."""
import json
import os

from hypothesis import strategies as st

from vt import docmodel, docs, gen, model, wheels
from vt.core import Check, expect, expect_eq
from vt.lib import VD, cli, errors, must_raise
from vt.model import is_label


@st.composite
def label_like(draw):
    """Accepted and unaccepted labels, with the borderline ones frequent."""
    kind = draw(st.sampled_from(["good", "good", "null", "near-null", "long", "bad-char", "text", "empty", "pad", "hash"]))
    if kind == "good":
        return draw(docs.label_text())
    if kind == "null":
        return "null"
    if kind == "near-null":
        return draw(st.sampled_from(["nul", "null1", "null_", ".null", "NULL", "Null", "none", "null ", "null\n", "nu1l", "nullnull", "n"]))
    if kind == "long":
        return draw(st.text(alphabet="abz09._", min_size=15, max_size=20))
    if kind == "bad-char":
        return draw(gen.bad_token(True))
    if kind == "text":
        return draw(gen.json_text())
    if kind == "empty":
        return draw(st.sampled_from(["", " ", ".", "_", "-", "0", "..", "a-b", "-a", "a-", "x" * 16, "x" * 17, "a+b", "a!b"]))
    if kind == "pad":
        return draw(st.sampled_from(["", " ", "\n", "\t"])) + draw(docs.label_text()) + draw(st.sampled_from(["", " ", "\n", "\r\n", "\x00"]))
    return "01234567"


@st.composite
def case_label(draw):
    props = draw(st.one_of(st.just([]), gen.free_props(3)))
    label = draw(st.none() | label_like())
    if props and draw(st.integers(0, 19)) == 0:
        label = model.variant_hash(props)
    return {"props": props, "label": label, "cmd": draw(st.integers(0, 9)) == 0}


def accepted(label, props):
    return (label == "null") == (not props) and is_label(label)


def check_label(case, ctx):
    from variantlib.api import get_variant_label, make_variant_dist_info
    from variantlib.commands.make_variant import make_variant
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    props, label = case["props"], case["label"]
    vd = VD(props)
    V = errors().ValidationError
    default = model.variant_hash(props) if props else "null"
    ok = label is None or accepted(label, props)
    ctx.label("null-variant" if not props else "variant", "default" if label is None else "accepted" if ok else "refused")
    ctx.nontrivial(label is not None)
    if label is None:
        expect_eq(get_variant_label(vd), default, "default label")
        expect_eq(get_variant_label(vd, None), default, "default label, explicitly")
        data = json.loads(make_variant_dist_info(vd))
        expect_eq(list(data["variants"]), [default], "label in wheel metadata")
    elif ok:
        expect_eq(get_variant_label(vd, label), label, "accepted custom label")
        text = make_variant_dist_info(vd, variant_label=label)
        expect_eq(list(json.loads(text)["variants"]), [label], "custom label in wheel metadata")
        expect_eq(VariantDistInfo(text, label).variant_label, label, "label read back")
        other = label[:-1] + ("x" if label[-1] != "x" else "y")
        must_raise(V, lambda: VariantDistInfo(text, other), "metadata for another label")
        must_raise(V, lambda: VariantDistInfo(text, ""), "metadata for the empty label")
    else:
        must_raise(V, lambda: get_variant_label(vd, label), f"label {label!r} for {props}")
        must_raise(V, lambda: make_variant_dist_info(vd, variant_label=label), f"metadata with label {label!r} for {props}")
    if label is not None:
        doc = {"variants": {label: docs.nested(props)}}
        if props:
            ns = list({p[0]: 1 for p in props})
            doc.update({"default-priorities": {"namespace": ns}, "providers": {n: {"requires": ["x"]} for n in ns}})
        if ok:
            expect_eq(list(VariantsJson(doc).variants), [label], "label in an index")
        else:
            must_raise(V, lambda: VariantsJson(doc), f"index with label {label!r} for {props}")
    if case["cmd"] and (label is None or not set(label) & {"\x00"}) and not any("\ud800" <= c <= "\udfff" for c in label or ""):
        ctx.label("command")
        d, out = ctx.mkdir("in"), ctx.mkdir("out")
        src = d / "pkg-1.0-py3-none-any.whl"
        wheels.write(src, SPEC)
        (d / "p.toml").write_text("")
        args = ["-f", src, "-o", out, "--pyproject-toml", d / "p.toml", "--skip-plugin-validation"]
        args += ["-p", *[" :: ".join(p) for p in props]] if props else ["--null-variant"]
        if label is not None:
            args.append(f"--variant-label={label}")
        r = cli(make_variant, args)
        # the command takes no label for the null variant, not even the right one
        good = ok and not (label is not None and not props)
        if good or not (ok and not props):
            expect_eq(r.ok, good, "whether make-variant takes the label", label=label, result=r)
        want = label if label is not None else default
        expect_eq(os.listdir(out), [f"pkg-1.0-py3-none-any-{want}.whl"] if r.ok else [], "output of make-variant")


SPEC = {"di": "pkg-1.0.dist-info", "members": [{"name": "pkg-1.0.dist-info/WHEEL", "data": "61"}],
        "record": {"at": -1, "eol": "\n", "blank": False, "end": True, "quote": False, "compress": 8, "mode": 0o644}}


@st.composite
def names(draw):
    if draw(st.booleans()):
        return draw(wheels.base_name())
    first = st.sampled_from("abcxyzABC019_")
    rest = st.text(alphabet="abcXYZ019_.", max_size=8)
    name = draw(first) + draw(rest)
    ver = draw(st.sampled_from(["1", "0", "1!2", "2024"])) + draw(st.text(alphabet="0123abdevpostrc._+!", max_size=8))
    build = draw(st.none() | st.tuples(st.sampled_from("0123456789"), st.text(alphabet="0123abz_.", max_size=4)).map("".join))
    tag = st.text(alphabet="abcpy0123_.", min_size=1, max_size=10)
    py = draw(st.sampled_from("pcij")) + draw(tag)
    return [f"{name}-{ver}", "-".join([name, ver, *([build] if build else []), py, draw(tag), draw(tag)])]


@st.composite
def case_name(draw):
    namever, base = draw(names())
    props = draw(st.one_of(st.just([]), gen.free_props(2)))
    kind = draw(st.sampled_from(["variant", "variant", "variant", "plain", "bad"]))
    label = None
    if kind == "variant":
        label = "null" if not props else model.variant_hash(props) if draw(st.booleans()) else draw(docs.label_text())
    elif kind == "bad":
        label = draw(label_like().filter(lambda x: not is_label(x) and not set(x) & {"/", "\x00"}
                                         and not any("\ud800" <= c <= "\udfff" for c in x) and len(x.encode()) < 100))
    return {"namever": namever, "base": base, "props": props, "label": label, "kind": kind}


def check_name(case, ctx):
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json
    from variantlib.commands.analyze_wheel import analyze_wheel
    from variantlib.commands.generate_index_json import generate_index_json
    from variantlib.commands.make_variant import make_variant
    from variantlib.commands.unmake_variant import unmake_variant
    from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX

    base, label, kind, props = case["base"], case["label"], case["kind"], case["props"]
    namever = case["namever"]
    file = f"{base}-{label}.whl" if label is not None else f"{base}.whl"
    ctx.label(kind, f"parts={base.count('-') + 1}")
    ctx.nontrivial(kind == "variant" or base.count("-") == 5)
    m = VALIDATION_WHEEL_NAME_REGEX.fullmatch(file)
    if kind == "bad":
        expect(m is None, "a name with an unacceptable label is recognised", name=file)
    else:
        expect(m is not None, "wheel name not recognised", name=file)
        expect_eq([m.group("base_wheel_name"), m.group("variant_label"), m.group("namever")], [base, label, namever],
                  "base name, label, name and version", name=file)
    d = ctx.mkdir("in")
    meta_label = label if kind == "variant" else "null" if not props else "meta"
    doc = {"variants": {meta_label: docs.nested(props)}}
    if props:
        ns = list({p[0]: 1 for p in props})
        doc.update({"default-priorities": {"namespace": ns}, "providers": {n: {"requires": ["x"]} for n in ns}})
    assert docmodel.verdict(doc, "wheel") == "good"
    spec = {**SPEC, "members": [*SPEC["members"], {"name": "pkg-1.0.dist-info/variant.json", "data": json.dumps(doc).encode().hex()}]}
    src = d / file
    wheels.write(src, spec)
    is_variant = kind == "variant"
    # analyze-wheel
    r = cli(analyze_wheel, ["-i", src])
    if kind == "bad":
        expect(not r.ok, "analyze-wheel accepts a name with an unacceptable label", name=file, result=r)
    else:
        expect(r.ok, "analyze-wheel fails", result=r)
        lines = [ln for ln in r.out.splitlines() if not ln.startswith("#")]
        expect_eq(lines, [" :: ".join(p) for p in sorted(props)] if is_variant else [], "properties analyze-wheel prints")
        expect_eq(bool(r.out), is_variant, "whether analyze-wheel takes it for a variant wheel")
    # index commands
    r = cli(generate_index_json, ["-d", d])
    expect(r.ok, "generate-index-json fails", result=r)
    idx = {f"{namever}-variants.json"} if is_variant else set()
    expect_eq(sorted(os.listdir(d)), sorted({file} | idx), "files after generate-index-json")
    for f in idx:
        expect_eq(list(json.loads((d / f).read_text())["variants"]), [label], "labels in the generated index")
        (d / f).unlink()
    out = ctx.mkdir("out")
    r = cli(add_wheel_to_index_json, ["-f", src, "-o", out])
    expect_eq(r.ok, is_variant, "whether add-wheel-to-index takes the wheel", name=file, result=r)
    expect_eq(set(os.listdir(out)), idx, "index file name")
    for f in idx:
        expect_eq(list(json.loads((out / f).read_text())["variants"]), [label], "labels in the index")
    # unmake-variant
    out = ctx.mkdir("out2")
    r = cli(unmake_variant, ["-f", src, "-o", out])
    if kind == "bad":
        expect(not r.ok, "unmake-variant accepts a name with an unacceptable label", name=file)
    expect_eq(os.listdir(out), [f"{base}.whl"] if is_variant else [], "output of unmake-variant")
    # make-variant: from the base name, whatever the current label
    out = ctx.mkdir("out3")
    (ctx.dir / "p.toml").write_text("")
    r = cli(make_variant, ["-f", src, "-o", out, "--pyproject-toml", ctx.dir / "p.toml", "--skip-plugin-validation",
                           "-p", "new::p::1", "--variant-label", "newl"])
    expect_eq(r.ok, kind != "bad", "whether make-variant takes the wheel", name=file, result=r)
    expect_eq(os.listdir(out), [f"{base}-newl.whl"] if r.ok else [], "output of make-variant")


CHECKS = [
    Check("labels", case_label, check_label, 16000, 500000,
          "custom labels around the limits of length and alphabet for null and other variants; non-trivial with a custom label"),
    Check("names", case_name, check_name, 3000, 80000,
          "wheel file names with and without build tag and label, given to every command; non-trivial for variant names "
          "and plain names with a build tag"),
]
