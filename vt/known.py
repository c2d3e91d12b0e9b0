"""known_findings.txt: genuine defects that are recorded rather than repaired."""
from __future__ import annotations

import re

from vt.core import VERIF

_LINE = re.compile(r"finding: property=(?P<prop>\S+) key=(?P<key>\S+) (?P<what>.*)")


def load() -> dict[tuple[str, str], str]:
    out = {}
    p = VERIF / "known_findings.txt"
    for line in p.read_text().splitlines() if p.exists() else []:
        if m := _LINE.fullmatch(line.strip()):
            out[m["prop"], m["key"]] = m["what"]
    return out
