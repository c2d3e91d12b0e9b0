"""Generators shared by the checks.  All cases are JSON-able."""
from __future__ import annotations

import ast
import functools
import re
import string

from hypothesis import strategies as st

from vt.core import REPO

NS_RE = re.compile(r"[a-z0-9_]+", re.ASCII)
VAL_RE = re.compile(r"[a-z0-9_.]+", re.ASCII)


@functools.cache
def dictionary() -> tuple[tuple[str, ...], tuple[int, ...]]:
    """Tokens and numbers appearing in the sources under test (fuzzing dictionary)."""
    words, ints = set(), set()
    for p in sorted((REPO / "variantlib").rglob("*.py")):
        try:
            tree = ast.parse(p.read_text())
        except SyntaxError:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, str) and len(v) < 400:
                    ints.update(n for n in map(int, re.findall(r"(?<![\d.])\d{1,4}(?![\d.])", v)) if 2 <= n <= 300)
                    for w in re.split(r"[^A-Za-z0-9_.]+", v):
                        if w and len(w) <= 24:
                            words.add(w.lower())
                elif isinstance(v, int) and not isinstance(v, bool) and 2 <= v <= 300:
                    ints.add(v)
    # rare words are more interesting than English ones in messages; keep all, they are few
    return tuple(sorted(words)), tuple(sorted(ints))


@functools.cache
def dict_tokens(dots: bool) -> list[str]:
    rx = VAL_RE if dots else NS_RE
    return [w for w in dictionary()[0] if rx.fullmatch(w)]


@functools.cache
def long_tokens(dots: bool) -> list[str]:
    """Tokens with lengths around powers of two and numbers of the sources; some differ at one end only."""
    lengths = {12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}
    lengths |= {n + d for n in dictionary()[1] if 12 < n <= 300 for d in (-1, 0, 1)}
    body = "0123456789abcdefghijklmnopqrstuvwxyz_" + ("." if dots else "")
    out = []
    for i, n in enumerate(sorted(lengths)):
        text = (body * (n // len(body) + 1))[:n]
        out += [text, text[:-1] + "x", "y" + text[1:], "1" * n][: 2 + i % 3]
    return out


def sizes(default_max: int = 6, cap: int = 40):
    """Mostly small sizes, sometimes one near a number appearing in the sources."""
    special = sorted({n + d for n in dictionary()[1] if n <= cap for d in (-1, 0, 1)} | {cap})
    special = [x for x in special if default_max < x <= cap] or [default_max]
    return st.integers(0, 19).flatmap(
        lambda k: st.sampled_from(special) if k == 19 else st.integers(0, default_max))


NS_POOL = ["a", "b", "ab", "a_b", "x86_64", "nvidia", "n0", "0", "_", "aa", "z"]
FEAT_POOL = ["f", "g", "ff", "f_g", "level", "sm", "0", "_f", "a"]
VAL_POOL = ["1", "2", "v", "10", "v1.2", "1.0", ".", "_", "a.b", "on", "off", "9", "v_1", "1_0", "..", "1.2.3"]


def _token(pool, dots: bool):
    alpha = "abcz0129_" + ("." if dots else "")
    full = string.ascii_lowercase + string.digits + "_" + ("." if dots else "")
    return st.one_of(
        st.sampled_from(pool), st.sampled_from(pool), st.sampled_from(pool),
        st.text(alphabet=alpha, min_size=1, max_size=3),
        st.text(alphabet=full, min_size=1, max_size=20),
        st.sampled_from(dict_tokens(dots) + dict_tokens(dots) + long_tokens(dots)),
    )


def ns_token():
    return _token(NS_POOL, False).filter(lambda x: x != "abi_dependency")


def feat_token():
    return _token(FEAT_POOL, False)


def val_token():
    return _token(VAL_POOL, True)


def near_value(v):
    return st.sampled_from([v + ".", "." + v, v + "0", "0" + v, v + "_", v + ".0", "_" + v, v.replace(".", "_"),
                            v.replace("_", "."), v.strip("._") or "x", v[::-1], v * 2])


def exact(elements, lo, hi):
    """A duplicate-free list whose size is uniform in lo..hi."""
    return st.integers(lo, hi).flatmap(
        lambda n: st.lists(elements, min_size=n, max_size=n, unique=True))


@st.composite
def universe(draw, max_ns=3, max_feat=3, max_vals=4, min_ns=1, large=39):
    """{namespace: {feature: [values]}}, everything non-empty, draws are ordered.

    Often the namespaces use the same feature names and the features the same values, and sometimes two features
    of different namespaces only differ in where the namespace ends (a_b :: c and a :: b_c).
    """
    names = draw(exact(ns_token(), min_ns, max_ns))
    shared_f = draw(exact(feat_token(), 1, max_feat)) if draw(st.integers(0, 2)) == 0 else None
    shared_v = draw(exact(val_token(), 1, max_vals)) if draw(st.integers(0, 3)) == 0 else None

    def values():
        if shared_v and draw(st.integers(0, 3)):
            return draw(shuffled(shared_v))[:draw(st.integers(1, len(shared_v)))]
        vs = draw(exact(val_token(), 1, max_vals))
        if len(vs) > 1 and draw(st.integers(0, 3)) == 0:
            # values that hardly differ
            i = draw(st.integers(1, len(vs) - 1))
            near = draw(near_value(vs[draw(st.integers(0, i - 1))]))
            if near not in vs:
                vs[i] = near
        return vs

    split = max_ns > 1 and draw(st.integers(0, 7)) == 0
    extra = {}
    if split:
        sep = draw(st.sampled_from(["_", "", "__"]))
        x, y, z = (draw(st.sampled_from(["a", "b", "x", "1", "_"])) for _ in range(3))
        pair = {x: y + sep + z, x + sep + y: z}
        if len(pair) == 2:
            extra = pair
            names = (list(pair) + [n for n in names if n not in pair])[:max(2, len(names))]
            names = draw(shuffled(names))
    out: dict[str, dict[str, list[str]]] = {}
    for ns in names:
        if shared_f and draw(st.integers(0, 3)):
            feats = draw(shuffled(shared_f))[:draw(st.integers(1, len(shared_f)))]
        else:
            feats = draw(exact(feat_token(), 1, max_feat))
        if ns in extra and extra[ns] not in feats:
            feats = ([extra[ns]] + feats)[:max_feat]
        out[ns] = {f: values() for f in feats}
    if not extra and ("a" in out or len(out) < max_ns) and draw(st.integers(0, 14)) == 0:
        out["a"] = {"f": list(draw(st.sampled_from(TWINS)))}
    if draw(st.integers(0, large)) == 0:
        enlarge(draw, out)
    if extra:
        (n1, f1), (n2, f2) = extra.items()
        if draw(st.integers(0, 2)):
            out[n2][f2] = list(out[n1][f1])
    return out


# Pairs of values v of 'a :: f :: v' whose variant hashes differ, but agree in the first or the last 4 to 7 digits
TWINS = (("6", "143"), ("189", "588"), ("120", "182"), ("281", "384"), ("322", "1982"),
         ("1388", "2227"), ("246", "883"), ("726", "1100"), ("8418", "10867"), ("8716", "11467"),
         ("1267", "1643"), ("1711", "2939"), ("21534", "22651"), ("7502", "24472"), ("9298", "24007"),
         ("6291", "25245"))


LARGE = (9, 10, 11, 12, 16, 17, 20, 33, 65)


def enlarge(draw, uni) -> None:
    """Give one feature many values, or one namespace many features, or add many namespaces."""
    kind = draw(st.sampled_from(["values", "values", "features"] + ["namespaces"] * (len(uni) > 1)))
    n = draw(st.sampled_from(LARGE if kind != "namespaces" else LARGE[:6]))
    names = [f"{draw(st.sampled_from(['a', 'v', '1', '_']))}{i}" for i in draw(shuffled(range(n)))] if n < 12 \
        else [f"v{(i * 7 + n) % n if n % 7 else i}" for i in range(n)]
    ns = draw(st.sampled_from(list(uni)))
    f = draw(st.sampled_from(list(uni[ns])))
    if kind == "values":
        uni[ns][f] = list(dict.fromkeys(uni[ns][f] + names))
    elif kind == "features":
        for x in names:
            uni[ns].setdefault(x, list(uni[ns][f][:2]))
    else:
        for x in names:
            uni.setdefault(x, {f: list(uni[ns][f][:2])})


def all_props(uni) -> list[list[str]]:
    return [[ns, f, v] for ns, fs in uni.items() for f, vs in fs.items() for v in vs]


def prop_list(props, min_size=0, max_size=6):
    """A duplicate-free list of properties from the pool, in arbitrary order."""
    if not props:
        return st.just([])
    hi = min(max_size, len(props))
    return st.integers(min(min_size, hi), hi).flatmap(
        lambda n: st.lists(st.sampled_from(props), min_size=n, max_size=n, unique_by=tuple))


@st.composite
def free_props(draw, max_size=6):
    """Duplicate-free properties without a common universe."""
    n = draw(sizes(max_size))
    return draw(st.lists(st.tuples(ns_token(), feat_token(), val_token()).map(list),
                         min_size=n, max_size=n, unique_by=tuple))


def json_text():
    """Arbitrary text, biased to characters that matter for parsing."""
    return st.text(alphabet=st.one_of(
        st.sampled_from("ab01_.: \t\n\r-AZ/\x0b\x0c\x1c\x85\xa0\u2028\u0660\u00e9\u017f\u212a"),
        st.characters(codec="utf-8")), max_size=12)


@st.composite
def bad_token(draw, dots: bool):
    """Text outside of the token alphabet."""
    good = draw(st.text(alphabet="abz09_" + ("." if dots else ""), max_size=4))
    bad = draw(st.one_of(
        st.sampled_from(["A", "Z", "-", " ", "\n", "\t", ":", "::", "/", "é", "ß", "\u0660", "\u06f1",
                         "\u212a", "\u017f", "\x00", "\r", "\u2028", "\xa0", "\\", "*", "+", ",", "²", "ª",
                         "{", "}", "`", "@", "[", "^"] + ([] if dots else ["."])),
        st.characters(codec="utf-8").filter(
            lambda c: not VAL_RE.fullmatch(c) and (dots or c != ".")),
    ))
    pos = draw(st.integers(0, len(good)))
    return good[:pos] + bad + good[pos:]


def shuffled(items):
    return st.permutations(list(items)).map(list)
