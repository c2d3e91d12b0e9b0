"""C24: the marker environment reflects the variant exactly."""
from hypothesis import strategies as st

from vt import docs, gen
from vt.core import Check, expect, expect_eq
from vt.lib import VD
from vt.props.c23 import label_like

VARS = ["variant_namespaces", "variant_features", "variant_properties"]


def items(props):
    return [{p[0] for p in props}, {f"{p[0]} :: {p[1]}" for p in props}, {f"{p[0]} :: {p[1]} :: {p[2]}" for p in props}]


@st.composite
def case(draw):
    uni = draw(gen.universe(3, 3, 4))
    pool = gen.all_props(uni)
    props = draw(st.one_of(gen.prop_list(pool, max_size=8), gen.free_props(5)))
    label = draw(st.none() | docs.label_text() | label_like())
    # a marker: a tree of tests about items the variant has or nearly has
    universe = [sorted(x) for x in items(pool + props)]
    near = ["", "a", "::", "f", " :: ", "a ::", "a::f", "null"]

    def atom():
        k = draw(st.integers(0, 3))
        if k == 3:
            return ["label", draw(st.sampled_from(["==", "!=", "in", "not in"])),
                    draw(st.sampled_from([label or "x", "null", "x", (label or "x")[:-1], (label or "x") + "1"]))]
        if draw(st.integers(0, 3)) == 0:
            j = draw(st.integers(0, 2))
            x = draw(st.sampled_from([*universe[j], *near, ""]))
            if draw(st.booleans()):
                x = draw(st.sampled_from([x.replace(" ", ""), x[:-1], x[1:], x + " ", x.upper(), x.replace("_", "-")]))
        else:
            x = draw(st.sampled_from(universe[k] or [""]))
        return ["var", k, draw(st.sampled_from(["in", "in", "not in"])), x]

    def tree(depth):
        if depth == 0 or draw(st.booleans()):
            return atom()
        return [draw(st.sampled_from(["and", "or"])), tree(depth - 1), tree(depth - 1)]

    return {"props": props, "label": label, "perm": draw(gen.shuffled(range(len(props)))),
            "markers": [tree(2) for _ in range(draw(st.integers(1, 4)))]}


def truth(t, props, label):
    if t[0] in ("and", "or"):
        a, b = truth(t[1], props, label), truth(t[2], props, label)
        return (a and b) if t[0] == "and" else (a or b)
    if t[0] == "label":
        have = label if label is not None else ""
        return {"==": have == t[2], "!=": have != t[2], "in": t[2] in have, "not in": t[2] not in have}[t[1]]
    has = any(t[3] == x for x in [p[0] if t[1] == 0 else f"{p[0]} :: {p[1]}" if t[1] == 1 else
                                   f"{p[0]} :: {p[1]} :: {p[2]}" for p in props])
    return has == (t[2] == "in")


def evaluate(t, env):
    """What an installer's marker evaluation does with the environment (the installed packaging
    library knows no variant variables, and normalizes the only set-valued one it has)."""
    if t[0] in ("and", "or"):
        a, b = evaluate(t[1], env), evaluate(t[2], env)
        return (a and b) if t[0] == "and" else (a or b)
    if t[0] == "label":
        have = env.get("variant_label", "")
        return {"==": have == t[2], "!=": have != t[2], "in": t[2] in have, "not in": t[2] not in have}[t[1]]
    return (t[3] in env[VARS[t[1]]]) == (t[2] == "in")


def check(case, ctx):
    from variantlib.api import get_variant_environment_dict, get_variant_label
    from variantlib.variants_json import VariantsJson

    props, label = case["props"], case["label"]
    vd = VD(props)
    want = dict(zip(VARS, items(props), strict=True))
    if label is not None:
        want["variant_label"] = label
    ctx.nontrivial(len(props) >= 2)
    ctx.label(f"n={min(len(props), 6)}", "label" if label is not None else "no-label")

    def exact(env, what):
        expect_eq(type(env), dict, f"{what}: type")
        expect_eq(set(env), set(want), f"{what}: variables")
        for k in VARS:
            expect(isinstance(env[k], (set, frozenset)), f"{what}: {k} is not a set", got=env[k])
            expect_eq(sorted(env[k]), sorted(want[k]), f"{what}: {k}")
        expect_eq(env.get("variant_label"), label, f"{what}: variant_label")

    env = get_variant_environment_dict(vd, label)
    exact(env, "environment")
    exact(get_variant_environment_dict(VD([props[i] for i in case["perm"]]), label), "environment of permuted properties")
    exact(get_variant_environment_dict(variant_desc=vd, variant_label=label), "environment, by keyword")
    if label is None:
        exact(get_variant_environment_dict(vd), "environment without label")
    for m in case["markers"]:
        expect_eq(evaluate(m, env), truth(m, props, label), "marker", marker=m, env=env)
    # answers are independent of each other
    for k in VARS:
        env[k] = env[k] | {"junk"}
        if isinstance(env[k], set):
            env[k].add("more")
    env["variant_label"] = "junk"
    exact(get_variant_environment_dict(vd, label), "environment after another one was modified")
    # the same for the variants of an index
    if props:
        own = get_variant_label(vd)
        ns = list({p[0]: 1 for p in props})
        doc = {"default-priorities": {"namespace": ns}, "providers": {n: {"requires": ["x"]} for n in ns},
               "variants": {own: docs.nested(props), "null": {}}}
        vj = VariantsJson(doc)
        want["variant_label"] = label = own
        exact(get_variant_environment_dict(vj.variants[own], own), "environment of an index entry")
        want = dict(zip(VARS, [set(), set(), set()], strict=True)) | {"variant_label": "null"}
        label = "null"
        exact(get_variant_environment_dict(vj.variants["null"], "null"), "environment of the null variant")


CHECKS = [
    Check("environment", case, check, 8000, 250000,
          "variants of 0-8 properties with and without label, and generated markers on them; non-trivial with at least two "
          "properties"),
]
