"""C01: the variant hash is a canonical function of the property set."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vt import gen, model
from vt.core import Check, expect_eq
from vt.lib import VD, VP, cli


@st.composite
def case_paths(draw):
    if draw(st.integers(0, 59)) == 0:
        n = draw(st.sampled_from([20, 33, 64, 65, 66, 100, 129, 257]))
        a, b = draw(st.integers(1, 9)), draw(st.integers(1, 40))
        props = [[f"n{i % a}", f"f{i % b}", f"v{i}" if i % 3 else str(i)] for i in range(n)]
    elif draw(st.booleans()):
        props = draw(gen.free_props(6))
    else:
        uni = draw(gen.universe(3, 4, 5))
        props = draw(gen.prop_list(gen.all_props(uni), min_size=draw(st.sampled_from([2, 0, 1, 12])), max_size=draw(st.sampled_from([6, 40]))))
    perm = draw(gen.shuffled(range(len(props))))
    sep = draw(st.lists(st.sampled_from([" :: ", "::", " ::", ":: ", "  ::\t", "\n:: "]),
                        min_size=2, max_size=2))
    return {"props": props, "perm": perm, "sep": sep}


def nested(props):
    out = {}
    for ns, f, v in props:
        out.setdefault(ns, {}).setdefault(f, []).append(v)
    return out


def check_paths(case, ctx):
    from variantlib.api import get_variant_label
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.variants_json import VariantsJson

    props = case["props"]
    want = model.variant_hash(props)
    perm = [props[i] for i in case["perm"]]
    ctx.nontrivial(len(props) >= 2)
    ctx.label(f"n={min(len(props), 10)}")
    vd = VD(props)
    expect_eq(vd.hexdigest, want, "hash of the constructed variant")
    expect_eq(vd.hexdigest, want, "hash asked twice")
    expect_eq(VD(perm).hexdigest, want, "hash of permuted properties")
    texts = [case["sep"][0].join([p[0], p[1]]) + case["sep"][1] + p[2] for p in perm]
    expect_eq(VariantDescription([VariantProperty.from_str(t) for t in texts]).hexdigest, want,
              "hash of variant parsed from text")
    expect_eq(VariantDescription.deserialize(VD(perm).serialize()).hexdigest, want,
              "hash of deserialized variant")
    ser = [{"namespace": p[0], "feature": p[1], "value": p[2]} for p in perm]
    expect_eq(VariantDescription.deserialize(ser).hexdigest, want, "hash of deserialized records")
    expect_eq(VariantDescription.from_dict(nested(perm)).hexdigest, want, "hash of variant from dict")
    expect_eq(VariantDescription.from_dict(VD(perm).to_dict()).hexdigest, want, "hash after dict round trip")
    label = get_variant_label(VD(perm))
    expect_eq(label, want if props else "null", "default label")
    vj = VariantsJson({"variants": {label: nested(perm)}})
    expect_eq(vj.variants[label].hexdigest, want, "hash of variant in an index")
    # growing and shrinking sets of properties, on fresh and on already hashed objects
    for k in range(len(perm)) if len(perm) < 20 else (1, len(perm) // 2, len(perm) - 1):
        expect_eq(VD(perm[:k]).hexdigest, model.variant_hash(perm[:k]), "hash of a subset")
    if props:
        expect_eq(vd == VD(perm), True, "equality of permuted variants")


def check_cli(case, ctx):
    from variantlib.commands.get_variant_hash import get_variant_hash

    props = case["props"]
    ctx.nontrivial(len(props) >= 2)
    texts = [model.prop_str(props[i]) for i in case["perm"]]
    want = model.variant_hash(props) + "\n"
    args = [x for t in texts for x in ("-p", t)]
    r = cli(get_variant_hash, args)
    expect_eq((r.ok, r.out), (True, want), "get-variant-hash, one -p each")
    if texts:
        r = cli(get_variant_hash, ["-p", *texts])
        expect_eq((r.ok, r.out), (True, want), "get-variant-hash, one -p for all")
        # a wheel-style duplicate must not silently yield a hash
        r = cli(get_variant_hash, ["-p", *texts, texts[0]])
        expect_eq((r.ok, r.out), (False, ""), "get-variant-hash with a duplicate property")


SCRIPT = """
import json, sys, logging
from variantlib.models.variant import VariantDescription, VariantProperty
out = []
for props in json.load(sys.stdin):
    vd = VariantDescription([VariantProperty(*p) for p in props])
    out.append([vd.hexdigest, [p.to_str() for p in vd.properties]])
print(json.dumps(out))
"""


@st.composite
def case_proc(draw):
    sets = draw(st.lists(gen.free_props(6), min_size=3, max_size=12))
    return {"sets": sets, "seed": draw(st.integers(0, 4000000000)), "cli": draw(st.integers(0, 2))}


def check_proc(case, ctx):
    env = dict(os.environ, PYTHONHASHSEED=str(case["seed"]))
    r = subprocess.run([sys.executable, "-c", SCRIPT], input=json.dumps(case["sets"]).encode(),
                       env=env, capture_output=True, check=False, cwd=ctx.dir)
    expect_eq(r.returncode, 0, f"subprocess failed: {r.stderr[-800:]}")
    ctx.nontrivial(any(len(s) >= 2 for s in case["sets"]))
    for props, (h, texts) in zip(case["sets"], json.loads(r.stdout), strict=True):
        expect_eq(h, model.variant_hash(props), "hash in another process")
        expect_eq(texts, [model.prop_str(p) for p in sorted(props)], "order in another process")
    props = case["sets"][case["cli"]]
    args = [x for p in props for x in ("-p", model.prop_str(p))]
    r = subprocess.run([sys.executable, "-c",
                        "import sys; from variantlib.commands.main import main; main(sys.argv[1:])",
                        "get-variant-hash", *args],
                       env=env, capture_output=True, check=False, cwd=ctx.dir)
    expect_eq((r.returncode, r.stdout.decode()), (0, model.variant_hash(props) + "\n"),
              f"variantlib get-variant-hash ({r.stderr[-500:]})")


RULE = "Property sets drawn from token pools, a dictionary of the sources and random tokens."
CHECKS = [
    Check("paths", case_paths, check_paths, 6000, 150000,
          "a set and a permutation through every construction path; non-trivial with >= 2 properties"),
    Check("cli", case_paths, check_cli, 2000, 40000,
          "command line, properties in permuted order; non-trivial with >= 2 properties"),
    Check("process", case_proc, check_proc, 40, 1500,
          "several sets in a fresh process with a random hash seed; non-trivial if one has >= 2"),
]
