"""Generated wheels: written with zipfile, read back with an own RECORD reader."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import os
import stat
import zipfile

from hypothesis import strategies as st

from vt import gen

NAMES = ["pkg", "Pkg_x", "a.b", "p2", "foo_bar", "_x", "pkg_l1"]
VERS = ["1.0", "0", "1.0+cu126", "1!2.0", "2024.1.2", "1.0.dev0", "1.0a1", "1.0_1"]
BUILDS = [None, None, None, "1", "2abc", "0_x"]
PYS = ["py3", "cp312", "py2.py3", "pp39"]
ABIS = ["none", "abi3", "cp312"]
PLATS = ["any", "linux_x86_64", "manylinux_2_17_x86_64.manylinux2014_x86_64", "win32"]


@st.composite
def base_name(draw):
    """[namever, full base name] of a wheel without variant label."""
    n, v = draw(st.sampled_from(NAMES)), draw(st.sampled_from(VERS))
    b = draw(st.sampled_from(BUILDS))
    rest = [draw(st.sampled_from(x)) for x in (PYS, ABIS, PLATS)]
    return [f"{n}-{v}", "-".join([n, v, *([b] if b else []), *rest])]


COMPRESS = [zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA]


def member_name():
    return st.one_of(
        st.sampled_from(["pkg/__init__.py", "pkg/mod.py", "pkg/data.bin", "pkg/a b.txt", "pkg/comma,name.txt",
                         'pkg/quo"te.txt', "pkg/d\u00e9j\u00e0.py", "pkg/\u4e2d.txt", "top.py", "pkg/variant.json", "variant.json",
                         "pkg/RECORD", "pkg-1.data/scripts/run", "pkg/_vendor/v-1.dist-info/RECORD",
                         "pkg/_vendor/v-1.dist-info/variant.json", "pkg/", "pkg/sub/", "pkg/'x'.py", "pkg/#x.py",
                         "a.dist-info.txt", "RECORD", "pkg/" + "long" * 25 + ".py"]),
        st.text(alphabet="ab_./,\" \u00e9", min_size=1, max_size=8).map(lambda s: "pkg/x" + s.replace("/", "_")))


@st.composite
def wheel(draw, di="pkg-1.0.dist-info", variant=None, simple=False):
    """A wheel spec.  `variant`: text of an existing variant.json."""
    members = []
    n = draw(st.sampled_from([2, 3, 5, 1, 0, 7])) if not simple else 1
    names = draw(st.lists(member_name(), min_size=n, max_size=n, unique=True))
    names += [f"{di}/METADATA", f"{di}/WHEEL"]
    if not simple:
        for extra in ("licenses/variant.json", "licenses/RECORD", "entry_points.txt", "variant.json.bak", "RECORD.jws"):
            if draw(st.integers(0, 7)) == 0:
                names.append(f"{di}/{extra}")
    for name in names:
        m = {"name": name}
        if not name.endswith("/"):
            m["data"] = draw(st.one_of(
                st.sampled_from(["", "x = 1\n", "a" * 5000, "line\r\nline\n", "\u00e9"]).map(lambda s: s.encode().hex()),
                st.binary(max_size=40).map(bytes.hex)))
        if not simple:
            m["compress"] = draw(st.sampled_from([8, 8, 8, 0, 12, 14]))
            m["mode"] = draw(st.sampled_from([0o644, 0o644, 0o755, 0o600, 0o444, None]))
            m["date"] = draw(st.sampled_from([[1980, 1, 1, 0, 0, 0], [2024, 2, 29, 23, 59, 58], [2107, 12, 31, 0, 0, 2]]))
            m["extra"] = draw(st.sampled_from(["", "", "", "554c0000"]))
        members.append(m)
    if not simple and draw(st.booleans()):
        members = draw(gen.shuffled(members))
    rec = {"at": draw(st.sampled_from([-1, -1, -1, 0, 1])) if not simple else -1, "eol": "\n", "blank": False, "end": True,
           "quote": False, "compress": 8, "mode": 0o644}
    if not simple:
        rec["eol"] = draw(st.sampled_from(["\n", "\n", "\r\n"]))
        rec["blank"] = draw(st.integers(0, 7)) == 0
        rec["end"] = draw(st.sampled_from([True, True, False]))
        rec["quote"] = draw(st.integers(0, 4)) == 0
        rec["self"] = draw(st.sampled_from(["last", "last", "none", "first"]))
        rec["hash"] = draw(st.sampled_from(["sha256", "sha256", "sha512"]))
        rec["compress"] = draw(st.sampled_from([8, 0]))
        rec["mode"] = draw(st.sampled_from([0o644, 0o664, None]))
    if variant is not None:
        at = draw(st.integers(0, len(members))) if not simple else len(members)
        members.insert(at, {"name": f"{di}/variant.json", "data": variant.encode().hex()})
    return {"di": di, "members": members, "record": rec, "comment": "" if simple else draw(st.sampled_from(["", "", "c"]))}


def digest(data: bytes, algo="sha256") -> str:
    return f"{algo}=" + base64.urlsafe_b64encode(hashlib.new(algo, data).digest()).rstrip(b"=").decode()


def record_bytes(spec) -> bytes:
    rec, di = spec["record"], spec["di"]
    rows = [[m["name"], digest(bytes.fromhex(m["data"]), rec.get("hash", "sha256")), str(len(bytes.fromhex(m["data"])))]
            for m in spec["members"] if not m["name"].endswith("/")
            and m["name"] not in (f"{di}/RECORD.jws", f"{di}/RECORD.p7s")]
    own = [f"{di}/RECORD", "", ""]
    where = rec.get("self", "last")
    if where != "none":
        rows.insert(0 if where == "first" else len(rows), own)
    out = io.StringIO()
    w = csv.writer(out, lineterminator=rec["eol"], quoting=csv.QUOTE_ALL if rec["quote"] else csv.QUOTE_MINIMAL)
    for i, r in enumerate(rows):
        w.writerow(r)
        if rec["blank"] and i == 0:
            out.write(rec["eol"])
    text = out.getvalue()
    if not rec["end"]:
        text = text[:-len(rec["eol"])] if text else text
    return text.encode()


def write(path, spec) -> None:
    with zipfile.ZipFile(path, "w") as z:
        items = [dict(m) for m in spec["members"]]
        rec = {"name": f"{spec['di']}/RECORD", "data": record_bytes(spec).hex(), **{
            k: spec["record"][k] for k in ("compress", "mode")}}
        at = spec["record"]["at"]
        items.insert(len(items) if at < 0 else min(at, len(items)), rec)
        for m in items:
            zi = zipfile.ZipInfo(m["name"], tuple(m.get("date", [2020, 1, 2, 3, 4, 6])))
            zi.compress_type = m.get("compress", 8)
            if m.get("mode", 0o644) is not None:
                kind = stat.S_IFDIR if m["name"].endswith("/") else stat.S_IFREG
                zi.external_attr = (kind | m.get("mode", 0o644)) << 16
            if m.get("extra"):
                zi.extra = bytes.fromhex(m["extra"])
            z.writestr(zi, bytes.fromhex(m.get("data", "")))
        if spec.get("comment"):
            z.comment = spec["comment"].encode()


def read(path):
    """[[name, data, attributes]] in archive order; fails on any inconsistency."""
    out = []
    with zipfile.ZipFile(path) as z:
        for zi in z.infolist():
            out.append([zi.filename, z.read(zi),
                        [zi.compress_type, zi.external_attr, list(zi.date_time)]])
    return out


def record_lines(data: bytes) -> list[bytes]:
    """Lines without terminators, blank ones dropped."""
    return [ln for ln in (x.rstrip(b"\r") for x in data.split(b"\n")) if ln.strip()]


def record_rows(data: bytes) -> list[list[str]]:
    return [r for r in csv.reader(io.StringIO(data.decode("utf-8"), newline="")) if r]


def tree(d) -> dict:
    """Everything below a directory: type, mode, content."""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",)
        for n in files:
            p = os.path.join(root, n)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, d)] = ("file", stat.S_IMODE(os.stat(p).st_mode),
                                                  hashlib.sha256(f.read()).hexdigest())
    return out
