"""Thin helpers around the library under test (public API and CLI functions only)."""
from __future__ import annotations

import contextlib
import io
import logging
import sys

from vt.core import Violation, expect


def errors():
    from variantlib import errors as e

    return e


def VP(p):
    from variantlib.models.variant import VariantProperty

    return VariantProperty(*p)


def VD(props):
    from variantlib.models.variant import VariantDescription

    return VariantDescription([VP(p) for p in props])


def unP(vprop) -> list[str]:
    return [vprop.namespace, vprop.feature, vprop.value]


def unD(vdesc) -> list[list[str]]:
    return [unP(p) for p in vdesc.properties]


def must_raise(exc_types, fn, what: str):
    """fn() must raise one of exc_types; returns the exception."""
    try:
        r = fn()
    except exc_types as exc:
        return exc
    except Exception as exc:
        raise Violation(f"{what}: raised {type(exc).__name__}: {exc} instead of "
                        f"{exc_types}") from exc
    raise Violation(f"{what}: no error, result {r!r}"[:2000])


class Cli:
    def __init__(self, rc, out, err, exc):
        self.rc, self.out, self.err, self.exc = rc, out, err, exc

    @property
    def ok(self) -> bool:
        return self.rc == 0 and self.exc is None

    def __repr__(self):
        return f"Cli(rc={self.rc}, exc={self.exc!r}, out={self.out[:400]!r}, err={self.err[:400]!r})"


def cli(fn, args, *rest, **kw) -> Cli:
    """Run a command function in process, capturing output, exit and exception."""
    out, err = io.StringIO(), io.StringIO()
    rc, exc = 0, None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            fn([str(a) for a in args], *rest, **kw)
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Exception as e:  # noqa: BLE001
            from vt.core import HarnessError, is_resource_error

            if is_resource_error(e):
                raise HarnessError(str(e)) from e
            rc, exc = 1, e
    return Cli(rc, out.getvalue(), err.getvalue(), exc)


@contextlib.contextmanager
def captured_logs(level=logging.WARNING):
    """Log records of the library (logging is disabled otherwise)."""
    records: list[logging.LogRecord] = []

    class H(logging.Handler):
        def emit(self, record):
            records.append(record)

    lg = logging.getLogger("variantlib")
    h = H(level)
    lg.addHandler(h)
    old, oldprop = lg.level, lg.propagate
    lg.setLevel(logging.DEBUG)
    lg.propagate = False
    logging.disable(logging.NOTSET)
    try:
        yield records
    finally:
        logging.disable(logging.CRITICAL)
        lg.removeHandler(h)
        lg.setLevel(old)
        lg.propagate = oldprop


def fake_isolation(ctx, python, calls: list, fail=None):
    """Stand-in for the isolated build environment: records what happens, installs nothing."""
    from build.env import DefaultIsolatedEnv as Env

    def enter(self):
        calls.append(["enter"])
        self._path = str(ctx.dir)
        return self

    def leave(self, *exc):
        calls.append(["exit"])

    def install(self, reqs):
        calls.append(["install", sorted(reqs)])
        if fail is not None:
            raise fail

    ctx.setattr(Env, "__enter__", enter)
    ctx.setattr(Env, "__exit__", leave)
    ctx.setattr(Env, "install", install)
    ctx.setattr(Env, "python_executable", property(lambda self: str(python)))
