"""Snapshot and restore of everything the library keeps per process (caches, memos, configuration)."""
from __future__ import annotations

import copy
import enum
import sys
import types

PLAIN = (type(None), bool, int, str, float, bytes, tuple)
MUTABLE = (dict, list, set)
SKIP = ("__annotations__", "__builtins__", "__spec__", "__loader__", "__file__", "__cached__", "__name__", "__package__",
        "__path__", "__doc__", "__dict__", "__weakref__", "__module__", "__qualname__")


def _copy(x):
    try:
        return copy.deepcopy(x)
    except Exception:  # noqa: BLE001
        return copy.copy(x)


class Saved:
    """What module globals, classes, defaults, closures and attributes of functions of the library held when it was imported."""

    def __init__(self, prefix: str) -> None:
        self.prefix = prefix
        self.namespaces: list = []        # (owner, names, {name: value}, {name: copy})
        self.boxes: list = []             # (mutable object, copy)
        self.caches: list = []
        self.seen: set[int] = set()
        for name, mod in sorted(sys.modules.items()):
            if mod is not None and (name == prefix or name.startswith(prefix + ".")):
                self._namespace(mod)

    def _ours(self, module) -> bool:
        return isinstance(module, str) and (module == self.prefix or module.startswith(self.prefix + "."))

    def _namespace(self, owner) -> None:
        if id(owner) in self.seen:
            return
        self.seen.add(id(owner))
        plain, names = {}, set()
        for k, v in list(vars(owner).items()):
            names.add(k)
            if k in SKIP or k.startswith("__"):
                continue
            if isinstance(v, PLAIN + MUTABLE):
                plain[k] = v
            self._value(v)
        self.namespaces.append((owner, names, plain))

    def _value(self, v) -> None:
        if isinstance(v, MUTABLE):
            if id(v) not in self.seen:
                self.seen.add(id(v))
                self.boxes.append((v, _copy(v)))
            return
        if hasattr(v, "cache_clear") and callable(v.cache_clear):
            self.caches.append(v)
            v = getattr(v, "__wrapped__", v)
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                self._value(f)
            return
        if isinstance(v, types.FunctionType):
            if id(v) in self.seen or not self._ours(v.__module__):
                return
            self.seen.add(id(v))
            for x in (*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values(), *vars(v).values()):
                self._value(x)
            for cell in v.__closure__ or ():
                try:
                    self._value(cell.cell_contents)
                except ValueError:
                    pass
            self.namespaces.append((v, set(vars(v)), {k: x for k, x in vars(v).items() if isinstance(x, PLAIN + MUTABLE)}))
        elif isinstance(v, type):
            if self._ours(v.__module__) and not issubclass(v, enum.Enum):
                self._namespace(v)
        elif self._ours(getattr(type(v), "__module__", None)) and hasattr(v, "__dict__") and not isinstance(v, enum.Enum):
            self._namespace(v)

    def restore(self) -> None:
        for v, old in self.boxes:
            if v != old or isinstance(v, (dict, list)) and list(v) != list(old):
                v.clear()
                (v.extend if isinstance(v, list) else v.update)(_copy(old))
        for owner, names, plain in self.namespaces:
            now = vars(owner)
            for k in [k for k in now if k not in names and not k.startswith("__")]:
                if not isinstance(now[k], types.ModuleType):
                    _quiet(delattr, owner, k)
            for k, v in plain.items():
                if now.get(k, now) is not v:
                    _quiet(setattr, owner, k, v)
        for c in self.caches:
            c.cache_clear()


def _quiet(fn, *args) -> None:
    try:
        fn(*args)
    except (AttributeError, TypeError):
        pass
