"""Core of the harness: checks, per-case context, violations."""
from __future__ import annotations

import contextlib
import copy
import errno
import importlib
import json
import logging
import os
import pathlib
import pkgutil
import shutil
import signal
import sys
from dataclasses import dataclass
from typing import Any, Callable

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")


class Violation(AssertionError):
    """The property does not hold for the case."""


class Skip(Exception):
    """The case is outside of the domain (counted as discarded)."""


class HarnessError(Exception):
    """Something in the harness or the machine is broken; never a violation."""


RESOURCE_ERRNOS = {errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN,
                   errno.EDQUOT, errno.ETXTBSY}


def is_resource_error(exc: BaseException | None) -> bool:
    seen = 0
    while exc is not None and seen < 10:
        if isinstance(exc, (MemoryError, HarnessError)):
            return True
        if isinstance(exc, OSError) and exc.errno in RESOURCE_ERRNOS:
            return True
        exc = exc.__cause__ or exc.__context__
        seen += 1
    return False


def expect(cond: Any, msg: str, /, **info: Any) -> None:
    if not cond:
        if info:
            msg += " | " + "; ".join(f"{k}={_short(v)}" for k, v in info.items())
        raise Violation(msg)


def expect_eq(got: Any, want: Any, msg: str, /, **info: Any) -> None:
    if type(got) is not type(want) and isinstance(got, (list, tuple, dict, set, str)) \
            and isinstance(want, (list, tuple, dict, set, str)):
        raise Violation(f"{msg}: got {type(got).__name__} {_short(got)}, want {_short(want)}")
    if got != want:
        extra = "".join(f"; {k}={_short(v)}" for k, v in info.items())
        raise Violation(f"{msg}: got {_short(got)}, want {_short(want)}{extra}")


def _short(v: Any, n: int = 1500) -> str:
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


@dataclass
class Check:
    name: str
    strategy: Any               # zero-argument callable returning a Hypothesis strategy
    fn: Callable[[Any, "Ctx"], None]
    quick: int                  # total cases over all shards
    thorough: int
    rule: str = ""
    max_s: float = 150.0        # stop generating after that many seconds (quick)
    shards: int = 8             # spread over at most that many workers
    fixed: list = None          # hand-written seed cases, run once (by shard 0)


class Ctx:
    """Facilities available to a check while it runs one case."""

    def __init__(self, base: pathlib.Path) -> None:
        self.base = base
        self.n = 0
        self._dir: pathlib.Path | None = None
        self.labels: set[str] = set()
        self.is_nontrivial = False
        self.known: list[str] = []
        self.patched_env: dict[str, str | None] = {}
        self.home = base / "home"
        self.cwd = base / "cwd"
        for d in (self.home, self.cwd, base / "etc"):
            d.mkdir(parents=True, exist_ok=True)

    # -- per-case life cycle -------------------------------------------------
    def begin(self) -> None:
        self.n += 1
        self.labels = set()
        self.is_nontrivial = False
        self._dir = None
        self._cleanups: list[Callable[[], None]] = []
        reset_library(self)

    def end(self) -> None:
        for f in reversed(self._cleanups):
            f()
        self._cleanups = []
        os.chdir(self.cwd)
        if self._dir is not None:
            make_writable(self._dir)
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    # -- for checks -----------------------------------------------------------
    def label(self, *names: str) -> None:
        self.labels.update(names)

    def nontrivial(self, cond: Any = True) -> None:
        if cond:
            self.is_nontrivial = True

    def finding(self, pid: str, key: str, msg: str) -> None:
        """A violation, unless known_findings.txt lists it."""
        from vt import known

        if (pid, key) not in known.load():
            raise Violation(msg)
        self.known.append(key)

    @property
    def dir(self) -> pathlib.Path:
        """Scratch directory of this case (created on first use)."""
        if self._dir is None:
            self._dir = self.base / f"case{self.n}"
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir.mkdir()
        return self._dir

    def mkdir(self, name: str) -> pathlib.Path:
        p = self.dir / name
        p.mkdir(parents=True, exist_ok=True)
        return p

    def setenv(self, name: str, value: str | None) -> None:
        old = os.environ.get(name)

        def undo() -> None:
            if old is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = old

        self._cleanups.append(undo)
        if value is None:
            os.environ.pop(name, None)
        else:
            os.environ[name] = value

    def setattr(self, obj: Any, name: str, value: Any) -> None:
        old = getattr(obj, name)
        self._cleanups.append(lambda: setattr(obj, name, old))
        setattr(obj, name, value)

    def chdir(self, path: pathlib.Path) -> None:
        os.chdir(path)

    def sys_path(self, entries: list) -> None:
        """Use only stdlib, /repo and the given entries (no installed packages)."""
        self.setattr(sys, "path", [str(e) for e in entries] + bare_sys_path())
        importlib.invalidate_caches()


def make_writable(d: pathlib.Path) -> None:
    for root, dirs, _files in os.walk(d):
        for x in dirs:
            with contextlib.suppress(OSError):
                os.chmod(os.path.join(root, x), 0o700)


_BARE: list[str] | None = None


def bare_sys_path() -> list[str]:
    """sys.path without directories containing package metadata."""
    global _BARE
    if _BARE is None:
        out = []
        for p in sys.path:
            if not p or "site-packages" in p or "dist-packages" in p:
                continue
            if os.path.isdir(p) and any(n.endswith((".dist-info", ".egg-info")) for n in os.listdir(p)):
                continue
            out.append(p)
        _BARE = out
    return list(_BARE)


_loaded = False
_saved: list = []


def load_library() -> None:
    """Import all of variantlib (and what it imports lazily) up front."""
    global _loaded
    if _loaded:
        return
    import variantlib

    if not str(variantlib.__file__).startswith(str(REPO)):
        raise HarnessError(f"variantlib imported from {variantlib.__file__}")
    for m in pkgutil.walk_packages(variantlib.__path__, "variantlib."):
        if m.name.endswith("._subprocess"):
            continue
        importlib.import_module(m.name)
    logging.getLogger("variantlib").handlers.clear()
    logging.disable(logging.CRITICAL)
    from vt import state

    _saved.append(state.Saved("variantlib"))
    _loaded = True


def reset_library(ctx: Ctx) -> None:
    """Forget everything the library caches per process."""
    load_library()
    for x in _saved:
        x.restore()
    lg = logging.getLogger("variantlib")
    lg.handlers.clear()
    os.chdir(ctx.cwd)


def isolate_process(base: pathlib.Path) -> None:
    """Point everything user-specific at the scratch directory."""
    for k in list(os.environ):
        if k.startswith(("XDG_", "VARIANT", "PIP_", "UV_", "VIRTUAL_ENV", "PYTHONPATH")):
            del os.environ[k]
    os.environ["PIP_NO_INDEX"] = "1"
    os.environ["HOME"] = str(base / "home")
    os.environ["XDG_CONFIG_HOME"] = str(base / "home" / "cfg")
    os.environ["XDG_CONFIG_DIRS"] = str(base / "etc")
    os.environ["TMPDIR"] = str(base / "tmp")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    (base / "tmp").mkdir(parents=True, exist_ok=True)
    import tempfile

    tempfile.tempdir = None


def get_property(pid: str):
    mod = importlib.import_module(f"vt.props.{pid.lower()}")
    return mod


def jsonable(case: Any) -> Any:
    return json.loads(json.dumps(case))


CASE_TIMEOUT = 120


class NoAnswer(BaseException):
    """Not an Exception, so that no handler in the tested code swallows it."""


def _no_answer(_sig, _frame):
    raise NoAnswer(f"no answer within {CASE_TIMEOUT} s")


def run_case(check: Check, case: Any, ctx: Ctx) -> None:
    """Run one case; raises Violation / Skip / HarnessError."""
    ctx.begin()
    old = signal.signal(signal.SIGALRM, _no_answer)
    signal.alarm(CASE_TIMEOUT)
    try:
        check.fn(copy.deepcopy(case), ctx)
    except (Violation, Skip, HarnessError):
        raise
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as exc:
        if isinstance(exc, OSError) and exc.errno == errno.ENAMETOOLONG:
            raise Skip from exc
        if is_resource_error(exc):
            raise HarnessError(f"{type(exc).__name__}: {exc}") from exc
        import traceback

        tb = traceback.format_exc()
        raise Violation(f"unexpected {type(exc).__name__}: {exc}\n{tb[-3000:]}") from exc
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        ctx.end()
