"""C07: installed packages become ABI-dependency properties, overridably."""
import re

from hypothesis import strategies as st

from vt import docs, gen, model
from vt.core import Check, expect, expect_eq
from vt.lib import captured_logs, unP

NS = "abi_dependency"
NAMES = ["foo", "Foo.Bar", "foo--bar", "FOO_bar", "a", "Torch", "numpy", "a.b-c_d", "x0", "0x", "zope.interface",
         "foo-bar-", "_priv", "A--.__b", "python"]
BAD_NAMES = ["fo o", "caf\u00e9", "a/b", "a:b", "a+b", "*"]
BAD_VERSIONS = ["abc", "1..2", "1.x", "1.0-foo", "1.0+", "unknown", "v", "1,0", "1.0 final x", "+1", "-1",
                "0.0.0-r1x", "1.2.3.dev0.dev1"]


def norm(name: str) -> str | None:
    """PEP 503 with underscores; None if it cannot be a feature name."""
    out = re.sub(r"[-_.]+", "_", name).lower()
    return out if model.is_name(out) else None


@st.composite
def version(draw):
    """(text, major, minor, micro) of a PEP 440 version."""
    n = draw(st.sampled_from([3, 2, 1, 4, 5]))
    rel = [draw(st.sampled_from([0, 1, 2, 3, 9, 10, 11, 20, 2024])) for _ in range(n)]
    text = ".".join((("0" if draw(st.integers(0, 9)) == 0 else "") + str(x)) for x in rel)
    if draw(st.integers(0, 5)) == 0:
        text = f"{draw(st.sampled_from([0, 1, 7]))}!{text}"
    if draw(st.integers(0, 7)) == 0:
        text = "v" + text
    if draw(st.integers(0, 2)) == 0:
        text += draw(st.sampled_from(["a1", "b2", "rc3", "rc", ".alpha4", "-beta.5", "_c6", "pre7"]))
    if draw(st.integers(0, 4)) == 0:
        text += draw(st.sampled_from([".post1", "-2", "post3", ".rev4", "-r5"]))
    if draw(st.integers(0, 4)) == 0:
        text += draw(st.sampled_from([".dev1", "dev", "-dev2"]))
    if draw(st.integers(0, 3)) == 0:
        text += draw(st.sampled_from(["+cu126", "+1.2", "+local_1-x", "+0"]))
    rel = (rel + [0, 0])[:3]
    return [text, *rel]


def matches(v) -> list[str]:
    _, a, b, c = v
    return [f"{a}", f"{a}.{b}", f"{a}.{b}.{c}"]


def name_text():
    return st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES),
                     st.text(alphabet="abAZ09._-", min_size=1, max_size=8).filter(lambda s: norm(s) is not None))


@st.composite
def dists(draw):
    """Directories of the path, each with distributions of distinct effective names."""
    out = []
    pool = draw(st.lists(name_text(), min_size=1, max_size=6))
    serial = 0
    bad_names = set()
    for _ in range(draw(st.sampled_from([2, 1, 3, 0]))):
        entries, seen = [], set()
        for _ in range(draw(st.sampled_from([3, 2, 4, 1, 0]))):
            serial += 1
            kind = draw(st.sampled_from(["dist-info", "dist-info", "dist-info", "egg-info", "egg-file"]))
            bad = draw(st.sampled_from(["", "", "", "", "name", "version", "no-name", "no-version", "no-file", "empty",
                                        "binary", "latin1"]))
            name = draw(st.sampled_from(pool))
            if bad == "name":
                name = draw(st.sampled_from(BAD_NAMES))
            elif bad:
                name = f"Broken{serial}"        # never competes with a good one
            elif norm(name) in seen:
                continue
            else:
                seen.add(norm(name))
            v = draw(version())
            if bad == "version":
                v = [draw(st.sampled_from(BAD_VERSIONS)), 0, 0, 0]
            entries.append({"kind": kind, "bad": bad, "name": name, "version": v, "n": serial})
        out.append(entries)
    return out, pool, bad_names


@st.composite
def case_packages(draw):
    dirs, pool, _ = draw(dists())
    env = None
    if draw(st.integers(0, 4)):
        env = []
        for _ in range(draw(st.sampled_from([2, 3, 1, 5, 0]))):
            kind = draw(st.integers(0, 3))
            if kind:
                v = draw(version())
                name = draw(st.one_of(st.sampled_from(pool), name_text()))
                env.append({"text": f"{name}=={v[0]}", "name": name, "version": v})
            else:
                n = draw(st.sampled_from(pool))
                env.append({"text": draw(st.sampled_from([
                    "", n, f"{n}=1.0", f"{n}>=1.0", f"{n}==", "==1.0", f"{n}==abc", f"{n}==1==2", f"{n}===1", "==", "=",
                    f"{n}==1.0;2", "fo o==1", "caf\u00e9==1", f"{n}!=1", f"{n} 1.0", f"{n}==1.*", f"{n}[x]==1.0",
                    f"{n}~=1.0", f"{n}==1..2", f"{n}==1.0 2.0"])), "name": None, "version": None})
    return {"dirs": dirs, "env": env}


def build(ctx, dirs):
    paths = []
    for i, entries in enumerate(dirs):
        d = ctx.mkdir(f"site{i}")
        paths.append(d)
        for e in entries:
            meta = f"Metadata-Version: 2.1\nName: {e['name']}\nVersion: {e['version'][0]}\nSummary: x\n"
            if e["bad"] == "no-name":
                meta = f"Metadata-Version: 2.1\nVersion: {e['version'][0]}\n"
            elif e["bad"] == "no-version":
                meta = f"Metadata-Version: 2.1\nName: {e['name']}\n"
            elif e["bad"] == "empty":
                meta = ""
            data = meta.encode()
            if e["bad"] == "binary":
                data = bytes(range(256))
            elif e["bad"] == "latin1":
                data += "Author: Ren\u00e9\n".encode("latin-1")
            stem = f"pkg{e['n']}-{e['n']}"
            if e["kind"] == "egg-file":
                if e["bad"] != "no-file":
                    (d / f"{stem}.egg-info").write_bytes(data)
                continue
            p = d / f"{stem}.{e['kind']}"
            p.mkdir()
            if e["bad"] != "no-file":
                (p / ("METADATA" if e["kind"] == "dist-info" else "PKG-INFO")).write_bytes(data)
    return paths


def effective(dirs, env):
    """{normalized name: [major, major.minor, major.minor.micro]}"""
    out = {}
    for entries in dirs:
        for e in entries:
            if not e["bad"]:
                out.setdefault(norm(e["name"]), matches(e["version"]))
    for e in env or []:
        if e["name"] is not None:
            out[norm(e["name"])] = matches(e["version"])
    return out


def setup(case, ctx):
    paths = build(ctx, case["dirs"])
    ctx.sys_path(paths)
    env = case["env"]
    ctx.setenv("VARIANT_ABI_DEPENDENCY", None if env is None else ",".join(e["text"] for e in env))
    return effective(case["dirs"], env)


def check_packages(case, ctx):
    from variantlib.resolver.lib import inject_abi_dependency, sort_and_filter_supported_variants
    from vt.lib import VD, VP, unD

    want = setup(case, ctx)
    env = case["env"] or []
    ill = [e for e in env if e["name"] is None]
    over = len(want) < sum(1 for d in case["dirs"] for e in d if not e["bad"]) + len(env) - len(ill)
    ctx.nontrivial(len(want) >= 1 and (ill or over or any(e["bad"] for d in case["dirs"] for e in d)))
    ctx.label(f"packages={min(len(want), 5)}", "override" if over else "no-override", "ill-formed" if ill else "well-formed",
              *{"bad-" + e["bad"] for d in case["dirs"] for e in d if e["bad"]})
    props, nsp = [VP(["a", "b", "c"])], ["a"]
    with captured_logs() as records:
        inject_abi_dependency(props, nsp)
    expect_eq(nsp[0], "a", "existing namespace priority")
    expect(nsp[-1] == NS, "abi_dependency does not rank last", got=nsp)
    got = [unP(p) for p in props]
    expect_eq(got[0], ["a", "b", "c"], "existing supported property")
    table = {}
    for ns, f, v in got[1:]:
        expect_eq(ns, NS, "namespace")
        table.setdefault(f, [])
        if v not in table[f]:
            table[f].append(v)
    expect_eq({k: sorted(v) for k, v in sorted(table.items())}, {k: sorted(set(v)) for k, v in sorted(want.items())},
              "supported package versions")
    # warnings name every ignored entry
    text = [r.getMessage() for r in records if r.levelno >= 30]
    need = [e["text"] for e in ill if e["text"]]
    expect(all(any(t in m for m in text) for t in need), "ignored entry without a warning", entries=need, log=text)
    # the same through the resolver: exactly the supported variants are offered
    cand = [[NS, f, v] for f, vs in want.items() for v in vs]
    for f, vs in want.items():
        a, b, c = (vs[2] + ".0.0").split(".")[:3]
        cand += [[NS, f, x] for x in (f"{a}.{b}.{c}.0", f"0{a}", f"{a}.{c}", f"{int(a) + 1}", f"{a}.{int(b) + 1}", b)]
        cand += [[NS, f + "_", a], [NS, f.replace("_", "") or "q", a], ["other", f, a]]
    for e in ill:
        if "==" in e["text"] and norm(e["text"].split("==")[0]):
            cand.append([NS, norm(e["text"].split("==")[0]), "1"])
    seen = []
    for p in cand:
        if p not in seen:
            seen.append(p)
    allowed = {(NS, f, v) for f, vs in want.items() for v in vs}
    got = [unD(v) for v in sort_and_filter_supported_variants([VD([p]) for p in seen], [], [])]
    expect_eq(sorted(str(v) for v in got if v), sorted(str([p]) for p in seen if tuple(p) in allowed),
              "variants offered because of installed packages")


@st.composite
def case_rank(draw):
    """Where abi_dependency ranks among other namespaces."""
    from vt.props import c05

    dirs, pool, _ = draw(dists())
    v = draw(version())
    name = draw(st.sampled_from(pool))
    env = [{"text": f"{name}=={v[0]}", "name": name, "version": v}]
    uni, doc, config = draw(c05.index_case(big=False))
    abi = [NS, norm(name), draw(st.sampled_from(matches(v)))]
    vs = {k: docs.flatten(x) for k, x in doc["variants"].items()}
    for k, x in list(vs.items()):
        if x and draw(st.booleans()):
            x2 = x + [abi]
            vs[model.variant_hash(x2)] = x2
    if draw(st.booleans()):
        vs["abi_only"] = [abi]
    labels = draw(gen.shuffled(vs))
    doc["variants"] = {k: docs.nested(vs[k]) for k in labels}
    if config is not None and config[0] is not None and NS not in config[0] and draw(st.booleans()):
        config[0].insert(draw(st.integers(0, len(config[0]))), NS)
    return {"dirs": dirs, "env": env, "doc": doc, "config": config, "abi": abi}


def check_rank(case, ctx):
    from variantlib.api import get_variants_by_priority
    from vt.props import c05

    want_pk = setup(case, ctx)
    doc, config = case["doc"], case["config"]
    c05.put_config(ctx, config)
    _, f, v = case["abi"]
    expect(v in want_pk[f], "harness: package lost")
    want, ordered = docs.resolve(doc, docs.static_supported(doc), config or (None, None, None), packages=[[f, [v]]])
    got = get_variants_by_priority(variants_json=doc)
    ctx.nontrivial(len(got) >= 3)
    user = bool(config and config[0] and NS in config[0])
    ctx.label("user-ranked" if user else "default-rank", f"kept={min(len(got), 6)}")
    c05.expect_labels(got, want, "order with abi_dependency", ordered=ordered)


CHECKS = [
    Check("packages", case_packages, check_packages, 3600, 90000,
          "metadata trees on sys.path (good and broken) and VARIANT_ABI_DEPENDENCY entries (well- and ill-formed); "
          "non-trivial when something is overridden, broken or ill-formed next to an effective package"),
    Check("rank", case_rank, check_rank, 2000, 60000,
          "indexes mixing abi_dependency with other namespaces; non-trivial when at least 3 variants are offered"),
]
