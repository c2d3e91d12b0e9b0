"""C13: making and unmaking variant wheels preserves the wheel."""
import json
import shutil

from hypothesis import strategies as st

from vt import docs, gen, model, wheels
from vt.core import Check, expect, expect_eq
from vt.lib import cli


@st.composite
def request(draw, doc, pool):
    """One make-variant request: properties, label, flags."""
    static = docs.static_supported(doc)
    kind = draw(st.sampled_from(["valid", "valid", "skip", "skip", "null"]))
    props = []
    if kind == "valid":
        seen = set()
        for p in draw(gen.prop_list(static, min_size=1, max_size=4)):
            # recorded features take a single value
            if (p[0], p[1]) not in seen:
                seen.add((p[0], p[1]))
                props.append(p)
        kind = "valid" if props else "null"
    elif kind == "skip":
        props = draw(st.one_of(gen.prop_list(pool, min_size=1, max_size=6), gen.free_props(4)))
        kind = "skip" if props else "null"
    label = None if kind == "null" or draw(st.booleans()) else draw(docs.label_text())
    return {"kind": kind, "props": props, "label": label, "repeat": draw(st.booleans()),
            "same_dir": draw(st.integers(0, 3)) == 0}


@st.composite
def case(draw):
    uni = draw(gen.universe(2, 2, 3))
    doc = draw(docs.info(uni, "project", ("aot",)))
    pool = gen.all_props(uni)
    namever, base = draw(wheels.base_name())
    di = draw(st.sampled_from([f"{namever}.dist-info", f"{namever}.dist-info", "pkg-1.0.dist-info", "d\u00e9j-1.dist-info"]))
    variant = draw(st.sampled_from([None, None, None, "{}", "old \u00e9 metadata", '{"variants": {"x": {}}}']))
    spec = draw(wheels.wheel(di, variant))
    big = draw(st.integers(0, 59)) == 37
    return {"doc": doc, "base": base, "spec": spec, "big": big,
            "old_label": draw(docs.label_text()) if variant is not None else None,
            "reqs": [draw(request(doc, pool)) for _ in range(draw(st.integers(1, 2)))],
            "stale": draw(st.booleans()), "unmake_same": draw(st.integers(0, 3)) == 0}


def make_args(req, src, out, proj):
    args = ["-f", src, "-o", out, "--pyproject-toml", proj, "--no-isolation"]
    if req["kind"] == "null":
        args.append("--null-variant")
    else:
        strs = [" :: ".join(p) for p in req["props"]]
        if req["repeat"]:
            for s in strs:
                args += ["-p", s]
        else:
            args += ["-p", *strs]
    if req["kind"] == "skip":
        args.append("--skip-plugin-validation")
    if req["label"] is not None:
        args += ["--variant-label", req["label"]]
    return args


def expected_label(req):
    if not req["props"]:
        return "null"
    return req["label"] if req["label"] is not None else model.variant_hash(req["props"])


def split(members, di):
    """Members without the metadata file, RECORD content removed; RECORD; metadata."""
    rest, record, meta = [], None, []
    for name, data, attrs in members:
        if name == f"{di}/variant.json":
            meta.append(data)
        elif name == f"{di}/RECORD":
            record = data
            rest.append([name, None, attrs])
        else:
            rest.append([name, data, attrs])
    return rest, record, meta


def other_lines(data, di):
    """RECORD lines except for the one of the metadata file."""
    out = []
    for line in wheels.record_lines(data):
        rows = wheels.record_rows(line)
        if rows and rows[0][0] == f"{di}/variant.json":
            continue
        out.append(line)
    return out


def exact_lines(data, di):
    """The same with line terminators; whether the last line had one is ignored."""
    lines = [ln + b"\n" for ln in data.split(b"\n") if ln.strip()]
    lines = [ln for ln in lines if (wheels.record_rows(ln.rstrip(b"\r\n")) or [[""]])[0][0] != f"{di}/variant.json"]
    if lines:
        lines[-1] = lines[-1].rstrip(b"\r\n")
    return lines


def blanks(data):
    return sum(1 for ln in data.split(b"\n")[:-1] if not ln.strip())


def check_record(members, di, algo):
    record = next(d for n, d, _ in members if n == f"{di}/RECORD")
    rows = wheels.record_rows(record)
    expect(all(len(r) == 3 for r in rows), "RECORD row without three fields", rows=rows)
    names = [r[0] for r in rows]
    expect(len(set(names)) == len(names), "repeated RECORD rows", names=names)
    by = {r[0]: r for r in rows}
    skip = {f"{di}/{x}" for x in ("RECORD", "RECORD.jws", "RECORD.p7s")}
    for name, data, _ in members:
        if name.endswith("/") or name in skip:
            continue
        expect(name in by, "member without RECORD row", name=name, record=record)
        row = by.pop(name)
        how = row[1].partition("=")[0]
        expect(how in (algo, "sha256", "sha384", "sha512"), "RECORD hash algorithm", row=row)
        expect_eq(row, [name, wheels.digest(data, how), str(len(data))], "RECORD row")
    expect(set(by) <= skip, "RECORD rows without a member", rows=by)


def check(case, ctx):
    from variantlib.commands.make_variant import make_variant
    from variantlib.commands.unmake_variant import unmake_variant

    ctx.sys_path([])
    d = ctx.mkdir("in")
    spec, di, base, doc = case["spec"], case["spec"]["di"], case["base"], case["doc"]
    if case["big"]:
        spec["members"][0] = {**spec["members"][0], "name": "pkg/big.bin", "data": (b"0123456789abcdef" * 70000).hex()}
    algo = spec["record"].get("hash", "sha256")
    src = d / (base + (f"-{case['old_label']}" if case["old_label"] is not None else "") + ".whl")
    wheels.write(src, spec)
    proj = ctx.dir / "pyproject.toml"
    proj.write_text(docs.toml({"project": {"name": "x"}, "variant": doc}))
    orig = wheels.read(src)
    o_rest, o_record, o_meta = split(orig, di)
    check_record(orig, di, algo)         # the generated wheel itself is sound
    odd = [n for n, _, _ in orig if '"' in n or "," in n or n.count("variant.json") or n.count("RECORD")]
    ctx.nontrivial(len(orig) >= 5 and (len(odd) > 1 or o_meta or len({tuple(map(str, a)) for _, _, a in orig}) > 1))
    ctx.label("has-metadata" if o_meta else "plain", *{f"kind-{r['kind']}" for r in case["reqs"]},
              *(["custom-label"] if any(r["label"] for r in case["reqs"]) else []),
              *(["unterminated"] if not spec["record"]["end"] else []), *(["big"] if case["big"] else []))
    cur = src
    for i, req in enumerate(case["reqs"]):
        out = cur.parent if req["same_dir"] else ctx.mkdir(f"out{i}")
        label = expected_label(req)
        target = out / f"{base}-{label}.whl"
        if case["stale"] and target != cur:
            target.write_bytes(b"stale content")
        before = wheels.tree(ctx.dir)
        r = cli(make_variant, make_args(req, cur, out, proj))
        expect(r.ok, "make-variant failed", result=r, req=req)
        after = wheels.tree(ctx.dir)
        key = str(target.relative_to(ctx.dir))
        expect(key in after, "no output wheel with that name", want=key, files=sorted(after))
        expect_eq({k: v for k, v in after.items() if k != key}, {k: v for k, v in before.items() if k != key},
                  "files other than the output")
        got = wheels.read(target)
        rest, record, meta = split(got, di)
        expect_eq(rest, o_rest, "members of the variant wheel besides RECORD and metadata")
        expect_eq(len(meta), 1, "number of metadata files in the variant wheel")
        lines, old = wheels.record_lines(record), other_lines(o_record, di)
        expect_eq(other_lines(record, di), old, "RECORD lines of the variant wheel besides the metadata row")
        kept = exact_lines(record, di)
        for ln in exact_lines(o_record, di):
            expect(any(x.startswith(ln) for x in kept), "RECORD line changed", line=ln, record=record)
        expect(blanks(record) <= blanks(o_record), "blank lines added to RECORD", record=record)
        expect_eq(len(lines), len(old) + 1, "number of RECORD lines", lines=lines)
        check_record(got, di, algo)
        # the metadata are those of the requested variant
        raw = json.loads(meta[0].decode())
        expect_eq(docs.d_common(raw), docs.d_common(doc), "common part of the metadata in the wheel")
        expect_eq(docs.d_variants(raw), {label: sorted(req["props"])}, "variant described by the wheel")
        cur = target
    # and back
    out = cur.parent if case["unmake_same"] else ctx.mkdir("back")
    target = out / f"{base}.whl"
    if case["stale"] and not target.exists():
        target.write_bytes(b"stale content")
    before = wheels.tree(ctx.dir)
    r = cli(unmake_variant, ["-f", cur, "-o", out])
    expect(r.ok, "unmake-variant failed", result=r)
    after = wheels.tree(ctx.dir)
    key = str(target.relative_to(ctx.dir))
    expect(key in after, "no output wheel with that name", want=key, files=sorted(after))
    expect_eq({k: v for k, v in after.items() if k != key}, {k: v for k, v in before.items() if k != key},
              "files other than the output of unmake")
    got = wheels.read(target)
    rest, record, meta = split(got, di)
    expect_eq(rest, o_rest, "members after unmake besides RECORD")
    expect_eq(meta, [], "metadata left after unmake")
    expect_eq(wheels.record_lines(record), other_lines(o_record, di), "RECORD lines after unmake")
    expect(blanks(record) <= blanks(o_record), "blank lines added to RECORD", record=record)
    expect_eq(exact_lines(record, di), exact_lines(o_record, di), "RECORD lines after unmake")
    check_record(got, di, algo)
    # unmaking a plain wheel does nothing
    before = wheels.tree(ctx.dir)
    r = cli(unmake_variant, ["-f", target, "-o", out])
    expect_eq(wheels.tree(ctx.dir), before, "files after unmaking a plain wheel")
    shutil.rmtree(ctx.dir, ignore_errors=True)
    ctx.dir.mkdir()


CHECKS = [
    Check("roundtrip", case, check, 3200, 80000,
          "wheels with arbitrary members, RECORD forms and pre-existing metadata, made into a variant (up to twice) and "
          "back; non-trivial when the wheel has at least 5 members and either look-alike or quoted names, existing "
          "metadata, or differing file attributes"),
]
