"""C17: a faulty provider is reported as an error, never as an answer."""
import json
import os
import sys

from hypothesis import strategies as st

from vt import docs, gen, plugs
from vt.core import Check, Violation, expect, expect_eq

ACTIONS = ["raise RuntimeError('boom')", "raise ValueError('\\udcff bad \\u00e9')", "raise SystemExit(3)",
           "raise SystemExit('text')", "raise SystemExit(0)", "raise KeyboardInterrupt", "_os._exit(0)", "_os._exit(7)",
           "_os.kill(_os.getpid(), 9)", "_os.kill(_os.getpid(), 11)", "_os.abort()", "print('noise')", "print('{}')",
           "print('[')", "_os.write(1, b'\\xff\\xfe')", "_os.write(2, b'\\xff\\xfe'); raise RuntimeError",
           "import sys; sys.stdout.close()", "import sys; sys.stdout = None", "_os.close(1)", "1/0", "x = [][0]",
           "class E(BaseException): pass\n{ind}raise E('boom')", "raise NotImplementedError", "assert False",
           "import vt_no_such_module", "def f(): f()\n{ind}f()",
           # only after the answer has been given
           "import atexit, sys; atexit.register(lambda: (sys.stdout.flush(), _os._exit(3)))",
           "import atexit, sys; atexit.register(lambda: (sys.stdout.flush(), _os.kill(_os.getpid(), 9)))",
           "import atexit; atexit.register(print, 'noise')", "import atexit; atexit.register(print, ',{}')"]
SPARE = ["raise ImportError('no')"]
ATTRS = ["no-namespace", "no-all", "no-supported", "ns-none", "ns-int", "ns-list", "ns-upper", "ns-empty", "ns-dash",
         "ns-newline", "all-not-callable", "supported-not-callable", "supported-args", "ns-raises", "missing-attr", "is-none"]
SHAPES = ["None", "()", "{}", "'x'", "0", "iter(R)", "tuple(R)", "{c.name: c for c in R}", "R[0]", "[R]", "R + [None]",
          "R + ['x']", "[(c.name, c.values, c.multi_value) for c in R]", "[{'name': c.name, 'values': c.values, "
          "'multi_value': c.multi_value} for c in R]", "set(R)", "R + R[:1]", "(c for c in R)", "True",
          "R + [_FC('other', ['1'], False)][0].values"]
FIELDS = ["name=None", "name=1", "name=''", "name='A'", "name='a b'", "name='a-b'", "name='a.b'", "name='a\\n'",
          "name='\\u0660'", "name=['f']", "name=b'f'", "name='\\ud800'", "values=None", "values='abc'", "values=[]",
          "values={'a'}", "values={'a': 1}", "values=['a', 'a']", "values=['a', 'b', 'a']", "values=['a', 1]",
          "values=['a', None]", "values=['A']", "values=['']", "values=['a b']", "values=['a', 'b\\n']", "values=['a:b']",
          "values=[['a']]", "values=iter(['a'])", "values=[b'a']", "values=1.5", "multi_value=None", "multi_value=1",
          "multi_value=0", "multi_value='yes'", "multi_value=[]", "multi_value=object()", "values=[float('nan')]",
          "values=['\\u00e9']", "del name", "del values", "del multi_value", "values=['a', True]", "name=True"]


@st.composite
def case(draw):
    names = draw(gen.exact(gen.ns_token(), 1, 3))
    specs = []
    for ns in names:
        uni = draw(gen.universe(1, 2, 3))
        b = draw(plugs.behaviour(ns, next(iter(uni.values()))).filter(lambda b: b["sup"]))
        specs.append({**b, "form": draw(st.sampled_from(["class", "instance", "module"])), "cfg": "class"})
    stage = draw(st.sampled_from(["import", "get", "get", "attr", "shape", "field", "field", "clash", "missing", "empty",
                                  "not-fixed"]))
    what = draw(st.sampled_from({"import": ACTIONS + SPARE + ["syntax error here"], "get": ACTIONS, "attr": ATTRS, "shape": SHAPES,
                                 "field": FIELDS, "clash": ["clash"], "missing": ["module", "attr", "submodule", "bad-api"],
                                 "empty": ["empty"], "not-fixed": ["none", "False", "0"]}[stage]))
    return {"specs": specs, "who": draw(st.integers(0, len(specs) - 1)), "stage": stage, "what": what,
            "method": draw(st.sampled_from(["all", "supported"])), "pos": draw(st.integers(0, 3)),
            "via": draw(st.sampled_from(["info", "info", "list", "entry", "api"])), "again": draw(st.booleans())}


def spoil(text, case, spec):
    """Change the source of a healthy plugin module."""
    stage, what, form = case["stage"], case["what"], spec["form"]
    ind = "    " if form == "module" else "        "
    meth = {"all": "get_all_configs", "supported": "get_supported_configs"}[case["method"]]
    note = f'_note("{case["method"]}")\n'
    if stage == "import":
        return text.replace('_note("import")\n', '_note("import")\n' + what.replace("{ind}", "") + "\n")
    if stage == "get":
        return text.replace(note, note + ind + what.replace("{ind}", ind) + "\n", 1)
    var = {"all": "_ALL", "supported": "_SUP"}[case["method"]]
    ret = f"return _mk({var})"
    if stage == "shape":
        return text.replace(ret, f"R = _mk({var}); return {what}", 1)
    if stage == "field":
        fix = f"R = _mk({var}); c = R[{case['pos']} % len(R)]; "
        fix += f"del c.{what[4:]}" if what.startswith("del ") else "c." + what
        return text.replace(ret, fix + "; return R", 1)
    if stage == "empty":
        return text.replace("return _mk(_ALL)", "return []", 1)
    if stage == "not-fixed":
        line = "" if what == "none" else f"is_aot_plugin = {what}"
        return text.replace("is_aot_plugin = True", line)
    if stage == "attr":
        ns = f"namespace = {spec['ns']!r}"
        val = {"ns-none": "None", "ns-int": "3", "ns-list": f"[{spec['ns']!r}]", "ns-upper": repr(spec["ns"].upper() + "A"),
               "ns-empty": "''", "ns-dash": repr(spec["ns"] + "-x"), "ns-newline": repr(spec["ns"] + "\n")}.get(what)
        if val:
            return text.replace(ns, f"namespace = {val}")
        if what == "no-namespace":
            return text.replace(ns, "pass" if form != "module" else "")
        if what == "ns-raises":
            return text.replace(ns, "namespace = property(lambda self: 1/0)") if form != "module" else \
                text.replace(ns, "")
        if what in ("no-all", "no-supported"):
            m = {"no-all": "get_all_configs", "no-supported": "get_supported_configs"}[what]
            return text.replace("def " + m, "def other_" + m)
        if what in ("all-not-callable", "supported-not-callable"):
            m = {"a": "get_all_configs", "s": "get_supported_configs"}[what[0]]
            extra = f"{m} = 3\n"
            if form == "module":
                return text + extra
            return text.replace("plugin = Plugin()\n", "") + f"Plugin.{m} = 3\n" + \
                ("plugin = Plugin()\n" if form == "instance" else "")
        if what == "supported-args":
            return text.replace("get_supported_configs(cls)", "get_supported_configs(cls, x)").replace(
                "get_supported_configs(self)", "get_supported_configs(self, x)").replace(
                "get_supported_configs()", "get_supported_configs(x)")
        if what == "missing-attr":
            return text.replace("class Plugin", "class Other").replace("Plugin()", "Other()").replace(
                "plugin = ", "other = ").replace("def get_all_configs()", "def x()")
        if what == "is-none":
            return text + {"class": "Plugin = None\n", "instance": "plugin = None\n", "module": "del get_all_configs\n"}[form]
    return text


def affects(case):
    """Queries that must fail: subset of load, all, supported, fixed."""
    stage, what, m = case["stage"], case["what"], case["method"]
    both = {"all", "supported"}
    if stage in ("import", "missing", "clash"):
        return both
    if stage in ("get", "shape", "field"):
        return {m}
    if stage == "empty":
        return {"all"}
    if stage == "not-fixed":
        return {"fixed"}
    if what in ("all-not-callable",):
        return {"all"}
    if what in ("supported-not-callable", "supported-args"):
        return {"supported"}
    return both


def check(case, ctx):
    from variantlib.api import get_variants_by_priority, validate_variant
    from variantlib.errors import PluginError, ValidationError
    from variantlib.plugins import loader as L
    from variantlib.pyproject_toml import VariantPyProjectToml
    from vt.lib import VD

    REPORTED = (PluginError, ValidationError, RuntimeError)
    specs, who, stage, what = case["specs"], case["who"], case["stage"], case["what"]
    if stage == "clash" and len(specs) < 2:
        specs.append({**specs[0], "all": [["zz", ["1"], False]], "sup": [["zz", ["1"], False]]})
    if stage == "not-fixed":
        for s in specs:
            s["aot"] = True
    if stage in ("not-fixed", "clash") and case["via"] == "api":
        case["via"] = "info"
    keys = [s["ns"] for s in specs]
    if stage == "clash":
        other = (who + 1) % len(specs)
        specs[other]["ns"] = specs[who]["ns"]
        if len(set(keys)) < len(keys):
            keys = [f"{k}_{i}" for i, k in enumerate(keys)]
    d = ctx.mkdir("plugins")
    apis = []
    for i, s in enumerate(specs):
        apis.append(plugs.write(d, f"vtplug{i}", s))
        if i == who:
            path = d / f"vtplug{i}.py"
            old = path.read_text()
            new = spoil(old, case, s)
            if stage not in ("clash", "missing"):
                expect(new != old or what == "none", "harness: the plugin was not spoiled", stage=stage, what=what)
            path.write_text(new)
    if stage == "missing":
        apis[who] = {"module": "vtplug_none:Plugin", "attr": apis[who].split(":")[0] + ":nope.x",
                     "submodule": "vtplug0.sub:Plugin", "bad-api": "vtplug0:Plugin.x.y"}[what]
    healthy = {"ns": "healthy_one", "all": [["f", ["1", "2"], True]], "sup": [["f", ["2"], True]], "form": "class", "aot": True}
    happi = plugs.write(d, "vthealthy", healthy)
    ctx.setenv("PYTHONPATH", str(d))
    ctx.sys_path([])
    ctx.chdir(ctx.mkdir("cwd"))
    vi = VariantPyProjectToml({"variant": {
        "default-priorities": {"namespace": keys},
        "providers": {k: {"requires": ["x"], "plugin-api": a} for k, a in zip(keys, apis, strict=True)}}})
    via = case["via"]
    if via == "list":
        def make():
            return L.ListPluginLoader(apis)
    elif via == "entry":
        site = ctx.mkdir("site")
        for i, a in enumerate(apis):
            di = site / f"dist{i}-1.0.dist-info"
            di.mkdir()
            (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: dist{i}\nVersion: 1.0\n")
            (di / "entry_points.txt").write_text(f"[variant_plugins]\nep{i} = {a}\n")
        ctx.sys_path([site])

        def make():
            return L.EntryPointPluginLoader()
    else:
        def make():
            return L.PluginLoader(variant_info=vi, include_aot_plugins=True)
    bad = affects(case)
    env, cwd, fds = dict(os.environ), os.getcwd(), sorted(os.listdir("/proc/self/fd"))
    ctx.label(stage, f"via-{via}", f"plugins={len(specs)}", f"{stage}:{what[:40]}" if stage in ("attr", "missing") else stage)
    ctx.nontrivial(len(specs) > 1 or stage in ("get", "shape", "field"))

    def query(q):
        if via == "api":
            if q == "all":
                props = [[s["ns"], s["all"][0][0], s["all"][0][1][0]] for s in specs]
                props = [p for i, p in enumerate(props) if p not in props[:i]]
                res = validate_variant(VD(props), vi)
                return {(p.namespace, p.feature, p.value): v for p, v in res.results.items()}
            vs = {f"l{i}": docs.nested([[s["ns"], f, vs[0]]]) for i, s in enumerate(specs) for f, vs, _ in s["sup"][:1]}
            return get_variants_by_priority(variants_json={
                "default-priorities": {"namespace": keys}, "variants": vs,
                "providers": {k: {"requires": ["x"], "plugin-api": a} for k, a in zip(keys, apis, strict=True)}})
        with make() as ldr:
            res = ldr.get_all_configs() if q == "all" else ldr.get_supported_configs(require_fixed=q == "fixed")
        return {ns: [[c.name, list(c.values), c.multi_value] for c in pc.configs] for ns, pc in res.items()}

    queries = ["all", "supported"] + (["fixed"] if stage == "not-fixed" else [])
    if case["again"]:
        queries += queries[::-1]
    for q in queries:
        if q in bad:
            try:
                res = query(q)
            except REPORTED:
                continue
            except Exception as exc:
                raise Violation(f"the fault surfaces as {type(exc).__name__}, not as an error of the provider: {exc} | "
                                f"query={q}; stage={stage}; what={what}; via={via}") from exc
            except BaseException as exc:
                raise Violation(f"{type(exc).__name__} escapes from the query") from exc
            raise Violation(f"no error from query {q}, answer {res!r} | stage={stage}; what={what}; via={via}")
        res = query(q)
        if via == "api":
            if q == "all":
                expect(all(v is True for v in res.values()), "verdicts of the healthy query", res=res)
            else:
                expect_eq(sorted(res), sorted([f"l{i}" for i in range(len(specs))] + ["null"]), "labels of the healthy query")
        else:
            want = {s["ns"]: s["all" if q == "all" else "sup"] for s in specs}
            if stage == "empty" and q == "all":
                continue
            expect_eq(res, want, f"answer to query {q}, which the fault does not touch")
    # the caller is unharmed and other queries work
    expect_eq([dict(os.environ), os.getcwd(), sorted(os.listdir("/proc/self/fd"))], [env, cwd, fds], "state of the calling process")
    expect(not any(m.startswith("vtplug") or m == "vthealthy" for m in sys.modules), "plugin imported into the calling process")
    ctx.sys_path([])
    with L.ListPluginLoader([happi]) as ldr:
        res = [{ns: [[c.name, list(c.values), c.multi_value] for c in pc.configs] for ns, pc in r.items()}
               for r in (ldr.get_all_configs(), ldr.get_supported_configs(require_fixed=True))]
    expect_eq(res, [{"healthy_one": healthy["all"]}, {"healthy_one": healthy["sup"]}], "answer of a healthy plugin afterwards")


CHECKS = [
    Check("faults", case, check, 720, 20000,
          "1-3 real plugins, one of them misbehaving at import, attribute access, when queried or in what it returns, "
          "through all loaders and the API; non-trivial next to other plugins or when the fault is in the answer"),
]
