"""Reference models, written from the documentation; nothing here uses variantlib."""
from __future__ import annotations

import hashlib

LOWER = set("abcdefghijklmnopqrstuvwxyz")
DIGIT = set("0123456789")
NAME_CHARS = LOWER | DIGIT | {"_"}
VALUE_CHARS = NAME_CHARS | {"."}
LABEL_CHARS = LOWER | DIGIT | {"_", "."}


def is_name(s) -> bool:
    return type(s) is str and s != "" and set(s) <= NAME_CHARS


def is_value(s) -> bool:
    return type(s) is str and s != "" and set(s) <= VALUE_CHARS


def is_label(s) -> bool:
    return type(s) is str and 1 <= len(s) <= 16 and set(s) <= LABEL_CHARS


def prop_str(p) -> str:
    return f"{p[0]} :: {p[1]} :: {p[2]}"


def variant_hash(props) -> str:
    text = "".join(prop_str(p) + "\n" for p in sorted(tuple(p) for p in props))
    return hashlib.sha256(text.encode("ascii")).hexdigest()[:8]


def split_text(text: str, n: int) -> list[str] | None:
    """Parse 'a :: b [:: c]' without regular expressions; None if it is not of that form."""
    parts = text.split("::")
    if len(parts) != n:
        return None
    # whitespace is allowed around separators and at both ends
    parts = [p.strip() for p in parts]
    checks = [is_name, is_name, is_value][:n]
    if not all(c(p) for c, p in zip(checks, parts, strict=True)):
        return None
    return parts


# -- filtering and ordering --------------------------------------------------

def keep(props, supported, forbidden_ns=(), forbidden_feat=(), forbidden_props=()) -> bool:
    ok = {tuple(p) for p in supported} - {tuple(p) for p in forbidden_props}
    fns = set(forbidden_ns)
    ffe = {tuple(f) for f in forbidden_feat}
    by_feat: dict[tuple, list] = {}
    for p in props:
        by_feat.setdefault((p[0], p[1]), []).append(tuple(p))
    for (ns, feat), ps in by_feat.items():
        if ns in fns or (ns, feat) in ffe:
            return False
        if not any(p in ok for p in ps):
            return False
    return True


def dedup(variants) -> list:
    seen, out = set(), []
    for v in variants:
        k = frozenset(tuple(p) for p in v)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def filter_variants(variants, supported, **forbidden) -> list:
    return [v for v in dedup(variants) if keep(v, supported, **forbidden)]


def _pos(seq, item):
    for i, x in enumerate(seq):
        if x == item:
            return i
    return float("inf")


def order_properties(supported, ns_prio, feat_prio=None, prop_prio=None) -> list:
    """Supported properties best first.  Features must be contiguous in `supported`."""
    feat_prio, prop_prio = feat_prio or {}, prop_prio or {}
    first: dict[tuple, int] = {}
    for i, (ns, f, _v) in enumerate(supported):
        first.setdefault((ns, f), i)
    keyed = []
    for i, (ns, f, v) in enumerate(supported):
        keyed.append((
            (_pos(ns_prio, ns), _pos(feat_prio.get(ns, []), f), first[ns, f],
             _pos(prop_prio.get(ns, {}).get(f, []), v), i), [ns, f, v]))
    keyed.sort(key=lambda kv: kv[0])
    return [p for _, p in keyed]


def rank(props, ordered) -> tuple:
    feats: dict[tuple, list] = {}
    for ns, f, v in ordered:
        feats.setdefault((ns, f), []).append(v)
    have: dict[tuple, set] = {}
    for ns, f, v in props:
        have.setdefault((ns, f), set()).add(v)
    return tuple(
        min((i for i, v in enumerate(vals) if v in have.get(k, ())), default=float("inf"))
        for k, vals in feats.items())


def merge_lists(*lists) -> list:
    """Concatenation, first occurrence across levels wins; duplicates within the first
    non-empty list are irrelevant for ordering."""
    out = []
    for lst in lists:
        for x in lst or []:
            if x not in out:
                out.append(x)
    return out


def merge_feat(*dicts) -> dict:
    keys = merge_lists(*[list(d or {}) for d in dicts])
    return {k: merge_lists(*[(d or {}).get(k) for d in dicts]) for k in keys}


def merge_prop(*dicts) -> dict:
    keys = merge_lists(*[list(d or {}) for d in dicts])
    return {k: merge_feat(*[(d or {}).get(k) for d in dicts]) for k in keys}
