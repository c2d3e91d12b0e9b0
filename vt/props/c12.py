"""C12: index commands publish exactly the usable variant wheels."""
import itertools
import json
import zipfile

from hypothesis import strategies as st

from vt import docmodel, docs, gen, model, wheels
from vt.core import Check, expect, expect_eq
from vt.lib import cli
from vt.props.c09 import document, mutate
from vt.props.c11 import disagree, strip

BAD = ["label", "no-json", "metadata", "not-json", "place", "plain-name", "bad-name", "not-zip", "truncated", "empty",
       "two-variants", "cut-member", "cut-member", "encrypted", "method", "short-member", "deep", "directory", "dangling"]


@st.composite
def case_dir(draw):
    uni = draw(gen.universe(2, 2, 3))
    base = draw(docs.info(uni, "index", foreign=False))
    pool = gen.all_props(uni)
    alts = [base]
    if draw(st.integers(0, 2)) == 0:
        d = draw(disagree(base, uni))
        if docmodel.verdict({**d, "variants": {}}, "index") == "good" and (
                strip(docs.d_common(d)) != strip(docs.d_common(base))):
            alts.append(d)
    packages = draw(st.lists(wheels.base_name(), min_size=1, max_size=2, unique_by=lambda x: x[0]))
    vs = [[]]
    for _ in range(draw(st.integers(1, 4))):
        v = draw(gen.prop_list(pool, min_size=1, max_size=3))
        if v and sorted(v) not in [sorted(x) for x in vs]:
            vs.append(v)
    labels = draw(st.lists(docs.label_text(), min_size=1, max_size=3, unique=True))
    files, used = [], set()
    for _ in range(draw(st.sampled_from([4, 5, 3, 6, 1]))):
        namever, full = draw(st.sampled_from(packages))
        if draw(st.integers(0, 3)) == 0:
            # another build/tag of the same version
            full = "-".join([namever, *draw(st.sampled_from([["1"], []])), draw(st.sampled_from(wheels.PYS)), "none", "any"])
        v = draw(st.sampled_from(vs))
        label = "null" if not v else draw(st.sampled_from([model.variant_hash(v)] * 2 + labels))
        bad = draw(st.sampled_from([""] * 30 + BAD))
        doc = {**json.loads(json.dumps(alts[draw(st.sampled_from([0, 0, 0, -1]))])), "variants": {label: docs.nested(v)}}
        name = f"{full}-{label}.whl"
        if bad == "label":
            wrong = draw(st.sampled_from([model.variant_hash(v), label[:-1] + "z", "null", label[:8], label + "0", None]))
            if wrong is None or wrong == label or not model.is_label(wrong):
                wrong = draw(docs.label_text().filter(lambda x, y=label: x != y))
            name = f"{full}-{wrong}.whl"
        elif bad == "plain-name":
            name = f"{full}.whl"
        elif bad == "bad-name":
            name = draw(st.sampled_from([f"{full}-UPPER.whl", f"{full}-{label}-x-y-z.whl", "junk.whl", f"{namever}.whl",
                                         f"{full}-{'x' * 17}.whl", f"{full}-{'x' * 14}.whl.whl",
                                         f"{full}-{label}.whl.whl", f"{full}-{label}\n.whl", f" {full}-{label}.whl", "a b-1-py3-none-any-x.whl", ".whl"]))
        elif bad == "metadata":
            draw(mutate(doc, "wheel"))
        elif bad == "two-variants":
            doc["variants"]["zz.extra"] = {"zz": {"zz": ["zz"]}}
        if name in used:
            continue
        used.add(name)
        w = {"file": name, "namever": namever, "label": label, "bad": bad, "text": json.dumps(doc)}
        if bad == "metadata" and not docmodel.verdict(doc, "wheel", label).startswith("bad"):
            continue
        files.append(w)
    others = draw(st.lists(st.sampled_from(["README.md", "x.tar.gz", "y.whl.txt", "old-0-variants.json", "same-index"]),
                           max_size=2, unique=True))
    return {"files": files, "others": others, "namevers": [p[0] for p in packages],
            "zero": draw(st.booleans()), "adds": draw(gen.shuffled(range(len(files))))}


def build(d, w):
    p = d / w["file"]
    if w["bad"] == "directory":
        p.mkdir()
        return
    if w["bad"] == "dangling":
        p.symlink_to(d / "nowhere")
        return
    spec = {"di": "pkg-1.0.dist-info", "members": [
        {"name": "pkg/__init__.py", "data": b"x".hex()}, {"name": "pkg-1.0.dist-info/METADATA", "data": b"y".hex()}],
        "record": {"at": -1, "eol": "\n", "blank": False, "end": True, "quote": False, "compress": 8, "mode": 0o644}}
    text, bad = w["text"], w["bad"]
    place = "pkg-1.0.dist-info/variant.json"
    if bad == "place":
        place = ["variant.json", "pkg/x.dist-info/variant.json", "pkg-1.0.data/variant.json",
                 "pkg-1.0.dist-info/licenses/variant.json", "pkg-1.0.dist-info/Variant.json"][len(text) % 5]
    if bad == "not-json":
        text = [text[:-3], "", "\x00", "{}}", "not json"][len(text) % 5]
    if bad == "deep":
        text = '{"variants": ' + "[" * 100000
    # the damage a reader notices depends on the compression
    comp = [8, 0, 12, 14][len(text) % 4] if bad == "cut-member" else 8
    if bad != "no-json":
        spec["members"].append({"name": place, "data": text.encode().hex(), "compress": comp})
    if bad == "not-zip":
        p.write_bytes(b"not a zip file" * 3)
        return
    if bad == "empty":
        p.write_bytes(b"")
        return
    wheels.write(p, spec)
    if bad == "truncated":
        data = p.read_bytes()
        p.write_bytes(data[:len(data) * 2 // 3])
    elif bad == "cut-member":
        # the member's data do not match its checksum
        with zipfile.ZipFile(p) as z:
            zi = z.getinfo(place)
            if comp == 14:
                # LZMA padding is not checked: damage the beginning of the stream
                zi.compress_size = min(zi.compress_size, 40)
            off = zi.header_offset + 30 + len(place) + zi.compress_size // 2
        data = bytearray(p.read_bytes())
        data[off] ^= 0x55
        p.write_bytes(bytes(data))
    elif bad in ("encrypted", "method", "short-member"):
        data = bytearray(p.read_bytes())
        local = data.index(b"PK\x03\x04", data.index(place.encode()) - 30)
        at = data.rindex(place.encode(), 0, data.rindex(b"PK\x05\x06"))
        central = data.rindex(b"PK\x01\x02", 0, at)
        if bad == "encrypted":
            for off in (local + 6, central + 8):
                data[off] |= 1
        elif bad == "method":
            for off in (local + 8, central + 10):
                data[off:off + 2] = b"\x61\x00"
        else:
            data[central + 20:central + 24] = len(data).to_bytes(4, "little")
        p.write_bytes(bytes(data))


def greedy(ws):
    """Index content when the wheels are taken in that order."""
    common, variants = None, {}
    for w in ws:
        doc = json.loads(w["text"])
        c, v = docs.d_common(doc), docs.d_variants(doc)
        if common is None:
            common = c
        elif strip(c) != strip(common):
            continue
        if any(variants.get(k, x) != x for k, x in v.items()):
            continue
        variants.update(v)
    return common, variants


def content(path):
    raw = json.loads(path.read_text())
    expect(raw.get("$schema"), "index without a schema")
    expect(docmodel.verdict(raw, "index") == "good", "index written is not well-formed", raw=raw)
    return strip(docs.d_common(raw)), docs.d_variants(raw)


def outcomes(ws):
    """All admissible indexes (one unless wheels disagree)."""
    out = []
    for perm in itertools.permutations(ws):
        c, v = greedy(perm)
        item = (strip(c), dict(sorted(v.items())))
        if item not in out:
            out.append(item)
    return out


def check_generate(case, ctx):
    from variantlib.commands.generate_index_json import generate_index_json

    d = ctx.mkdir("wheels")
    for w in case["files"]:
        build(d, w)
    for o in case["others"]:
        if o == "same-index":
            o = f"{case['namevers'][0]}-variants.json"
        (d / o).write_text("old content")
    good: dict = {}
    for w in case["files"]:
        if not w["bad"]:
            good.setdefault(w["namever"], []).append(w)
    before = wheels.tree(d)
    r = cli(generate_index_json, ["-d", d])
    after = wheels.tree(d)
    nbad = sum(1 for w in case["files"] if w["bad"])
    ctx.nontrivial(any(len(x) >= 2 for x in good.values()) or (good and nbad))
    ctx.label(f"good={min(sum(map(len, good.values())), 5)}", f"bad={min(nbad, 3)}",
              *{"bad-" + w["bad"] for w in case["files"] if w["bad"]})
    expect(r.ok, "generate-index-json failed", result=r)
    new = {f"{n}-variants.json" for n in good}
    expect_eq(sorted(after), sorted(set(before) | new), "files after generate-index-json")
    for k, v in before.items():
        if k not in new:
            expect_eq(after[k], v, f"generate-index-json changed {k}")
    for n, ws in good.items():
        c, v = content(d / f"{n}-variants.json")
        poss = outcomes(ws)
        ctx.label("ambiguous" if len(poss) > 1 else "unique")
        expect((c, dict(sorted(v.items()))) in poss, "generated index does not describe the usable wheels",
               got=(c, v), want=poss[0], wheels=[w["file"] for w in ws])
    # adding the wheels one at a time gives the same index
    for n, ws in good.items():
        if len(outcomes(ws)) == 1:
            add_all(case, ctx, d, n, ws)


def add_all(case, ctx, d, n, ws):
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json

    out = ctx.mkdir("added-" + n.encode().hex())
    idx = out / f"{n}-variants.json"
    order = [case["files"][i] for i in case["adds"] if any(case["files"][i] is w for w in ws)]
    for i, w in enumerate(order):
        args = ["-f", d / w["file"], "-o", out]
        if i:
            args += ["-i", idx, "-w"]
        r = cli(add_wheel_to_index_json, args)
        expect(r.ok, "adding a usable wheel failed", wheel=w["file"], result=r)
        expect_eq(sorted(p.name for p in out.iterdir()), [idx.name], "files after adding")
    expect_eq(json.loads(idx.read_text()), json.loads((d / idx.name).read_text()),
              "index built by adding vs generated at once")


@st.composite
def case_add(draw):
    c = draw(case_dir())
    c["steps"] = draw(st.lists(st.tuples(
        st.integers(0, 5), st.sampled_from(["none", "same", "same", "same", "same", "same", "same!", "missing", "damaged", "other-dir"]),
        st.sampled_from([True, True, True, False])).map(list), min_size=2, max_size=5))
    return c


def check_add(case, ctx):
    """A history of additions, some refused: the index file only ever changes by success."""
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json

    if not case["files"]:
        return
    d, out, other = ctx.mkdir("wheels"), ctx.mkdir("out"), ctx.mkdir("out2")
    for w in case["files"]:
        build(d, w)
    whl = wheels.tree(d)
    refused = accepted = 0
    state: dict = {}                # index file name -> (common, variants)
    for i, inp, over in case["steps"]:
        w = case["files"][i % len(case["files"])]
        n = w["namever"]
        idx = out / f"{n}-variants.json"
        args = ["-f", d / w["file"], "-o", out]
        if over:
            args.append("-w")
        base = None
        ok = not w["bad"]
        if inp == "same" and idx.name not in state:
            inp = "none"
        if inp in ("same", "same!"):
            args += ["-i", idx]
            if idx.name in state:
                base = state[idx.name]
            else:
                ok = False
        elif inp == "missing":
            args += ["-i", out / "missing.json"]
            ok = False
        elif inp == "damaged":
            p = other / "damaged.json"
            p.write_text('{"variants": 3}' if over else '{"variants": {"A": {}}}')
            args += ["-i", p]
            ok = False
        elif inp == "other-dir":
            args[3] = ctx.dir / "nonexistent"
            ok = False
        if idx.name in state and not over:
            ok = False
        new = None
        if ok:
            doc = json.loads(w["text"])
            c, v = docs.d_common(doc), docs.d_variants(doc)
            if base is None:
                new = (c, v)
            elif strip(base[0]) != strip(c) or any(base[1].get(k, x) != x for k, x in v.items()):
                ok = False
            else:
                new = (base[0], {**base[1], **v})
        before = {**wheels.tree(out), **wheels.tree(other)}
        r = cli(add_wheel_to_index_json, args)
        if ok:
            accepted += 1
            expect(r.ok, "adding a usable wheel failed", wheel=w["file"], result=r, args=args)
            state[idx.name] = new
            c, v = content(idx)
            expect_eq((c, v), (strip(new[0]), new[1]), "index after adding a wheel")
            expect_eq(sorted(wheels.tree(out)), sorted(state), "files after adding a wheel")
        else:
            refused += 1
            expect(not r.ok, "an addition that must be refused succeeded", wheel=w, args=args)
            expect_eq({**wheels.tree(out), **wheels.tree(other)}, before, "refused addition changed files")
        expect_eq(wheels.tree(d), whl, "adding changed the wheels")
        expect(not (ctx.dir / "nonexistent").exists(), "output directory created")
    ctx.nontrivial(accepted >= 1 and refused >= 1)
    ctx.label(f"accepted={min(accepted, 3)}", f"refused={min(refused, 3)}")


CHECKS = [
    Check("generate", case_dir, check_generate, 1600, 40000,
          "directories of usable and unusable wheels of one or two package versions; non-trivial with at least two "
          "usable wheels of a version, or a usable and an unusable one"),
    Check("add", case_add, check_add, 1600, 40000,
          "histories of add-wheel-to-index-json with and without input index and overwrite; non-trivial when one "
          "addition succeeds and one is refused"),
]
