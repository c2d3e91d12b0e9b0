"""Generated provider plugins: real modules in a scratch directory."""
from __future__ import annotations

import pathlib

from hypothesis import strategies as st

from vt import gen

FORMS = ["class", "instance", "module", "nested", "pkg", "static", "noinit", "callable", "inherited"]

HEADER = '''\
import os as _os
{cfg}
_ALL = {all!r}
_SUP = {sup!r}
def _note(what):
    p = _os.environ.get("VT_PLUGIN_LOG")
    if p:
        with open(p, "a") as f:
            f.write({ns!r} + " " + what + "\\n")
_note("import")
def _mk(lst):
    return [_FC(n, list(v), m) for n, v, m in lst]
'''

# ways of writing the configuration objects
CONFIGS = {
    "class": """class _FC:
    def __init__(self, name, values, multi_value):
        self.name, self.values, self.multi_value = name, values, multi_value""",
    "dataclass": """import dataclasses as _dc
@_dc.dataclass(frozen=True)
class _FC:
    name: str
    values: list
    multi_value: bool = False""",
    "namedtuple": """from collections import namedtuple as _nt
_FC = _nt("_FC", ["name", "values", "multi_value"])""",
    "simple": """from types import SimpleNamespace as _SN
def _FC(name, values, multi_value):
    return _SN(name=name, values=values, multi_value=multi_value, extra=object())""",
    "slots": """class _FC:
    __slots__ = ("name", "values", "multi_value")
    def __init__(self, name, values, multi_value):
        self.name, self.values, self.multi_value = name, values, multi_value""",
    "property": """class _FC:
    def __init__(self, *a):
        self._a = a
    name = property(lambda self: self._a[0])
    values = property(lambda self: list(self._a[1]))
    multi_value = property(lambda self: self._a[2])""",
    "lib": """from variantlib.models.provider import VariantFeatureConfig as _VFC
def _FC(name, values, multi_value):
    return _VFC(name=name, values=values, multi_value=multi_value)""",
}

CLS = '''\
class Plugin:
    namespace = {ns!r}
{aot}
    @classmethod
    def get_all_configs(cls):
        _note("all")
        return _mk(_ALL)
    @classmethod
    def get_supported_configs(cls):
        _note("supported")
        return _mk(_SUP)
'''
STATIC = CLS.replace("@classmethod", "@staticmethod").replace("(cls)", "()")
INST = CLS.replace("    @classmethod\n", "").replace("(cls)", "(self)")
MODULE = '''\
namespace = {ns!r}
{aot}
def get_all_configs():
    _note("all")
    return _mk(_ALL)
def get_supported_configs():
    _note("supported")
    return _mk(_SUP)
'''


def source(spec) -> str:
    form = spec["form"]
    aot = spec.get("aot")
    ind = "" if form == "module" else "    "
    aot_line = f"{ind}is_aot_plugin = {aot!r}" if aot is not None else ""
    form = {"noinit": "class", "callable": "instance", "inherited": "instance"}.get(kind := form, form)
    body = {"class": CLS, "static": STATIC, "instance": INST, "module": MODULE,
            "nested": INST, "pkg": CLS}[form].format(ns=spec["ns"], aot=aot_line)
    out = HEADER.format(all=[list(x) for x in spec["all"]], sup=[list(x) for x in spec["sup"]], ns=spec["ns"], cfg=CONFIGS[spec.get("cfg", "class")]) + body
    if kind == "noinit":        # cannot be instantiated
        out += "    def __init__(self, config):\n        raise RuntimeError('not meant to be created')\n"
    elif kind == "callable":    # cannot be called
        out += "    def __call__(self, *args):\n        raise RuntimeError('not meant to be called')\n"
    elif kind == "inherited":   # everything comes from the base class, the namespace is computed
        out = out.replace("class Plugin:", "class _Base:").replace(
            f"    namespace = {spec['ns']!r}", f"    @property\n    def namespace(self):\n        return {spec['ns']!r}")
        out += "class Plugin(_Base):\n    pass\n"
        if aot is not None:     # what counts is what the object says
            out = out.replace(aot_line + "\n", f"    is_aot_plugin = {not aot!r}\n")
            out += f"    def __init__(self):\n        self.is_aot_plugin = {aot!r}\n"
    if form == "instance":
        out += "plugin = Plugin()\n"
    elif form == "nested":
        out += "class Outer:\n    class Inner:\n        plugin = Plugin()\n"
    return out


def write(d: pathlib.Path, mod: str, spec) -> str:
    """Write the plugin module, return its plugin-api."""
    form = spec["form"]
    if form == "pkg":
        (d / mod).mkdir(parents=True, exist_ok=True)
        (d / mod / "__init__.py").write_text("")
        (d / mod / "sub.py").write_text(source(spec))
        return f"{mod}.sub:Plugin"
    d.mkdir(parents=True, exist_ok=True)
    (d / f"{mod}.py").write_text(source(spec))
    return {"class": f"{mod}:Plugin", "static": f"{mod}:Plugin", "instance": f"{mod}:plugin",
            "noinit": f"{mod}:Plugin", "callable": f"{mod}:plugin", "inherited": f"{mod}:plugin",
            "module": mod, "nested": f"{mod}:Outer.Inner.plugin"}[form]


@st.composite
def behaviour(draw, ns, feats, single=False):
    """A well-behaved plugin for the features of one namespace: all configs, supported ones."""
    all_ = [[f, list(feats[f]), False if single else draw(st.booleans())] for f in draw(gen.shuffled(feats))]
    sup = []
    for f, vs, m in draw(gen.shuffled(all_)):
        if draw(st.integers(0, 3)) == 0 and (sup or draw(st.booleans())):
            continue
        vals = [x[0] for x in draw(gen.prop_list([[v] for v in vs], min_size=1, max_size=len(vs)))]
        sup.append([f, vals, m])
    return {"ns": ns, "all": all_, "sup": sup, "form": draw(st.sampled_from(FORMS)), "aot": draw(st.sampled_from(
        [None, False, True]))}


def flat(ns, configs):
    return [[ns, f, v] for f, vs, _m in configs for v in vs]
