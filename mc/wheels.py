"""Synthetic wheels, and reading them back member by member."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import stat
import zipfile

ATTRS = ("filename", "date_time", "compress_type", "external_attr", "internal_attr", "create_system", "comment", "is_dir")
KINDS = {
    # external attributes as written by the usual tools
    "file": (stat.S_IFREG | 0o644) << 16, "exec": (stat.S_IFREG | 0o755) << 16, "ro": (stat.S_IFREG | 0o400) << 16, "setuid": (stat.S_IFREG | 0o4755) << 16,
    "link": (stat.S_IFLNK | 0o777) << 16, "dir": ((stat.S_IFDIR | 0o755) << 16) | 0x10, "none": 0, "dos": 0x20,
}
METHODS = {"stored": zipfile.ZIP_STORED, "deflated": zipfile.ZIP_DEFLATED, "bzip2": zipfile.ZIP_BZIP2, "lzma": zipfile.ZIP_LZMA}


def data_of(spec):
    """[n, seed] -> n bytes"""
    if isinstance(spec, str):
        return spec.encode()
    n, seed = spec
    block = hashlib.sha256(str(seed).encode()).digest() * 7 + bytes(33)
    return (block * (n // len(block) + 1))[:n]


class _Stream(io.RawIOBase):
    """an output that cannot seek"""

    def __init__(self, f):
        self.f = f

    def writable(self):
        return True

    def write(self, b):
        return self.f.write(b)

    def flush(self):
        self.f.flush()


def member(name, data="", date=(2020, 2, 3, 4, 5, 6), kind="file", method="deflated", system=3, comment=""):
    return [name, data, list(date), kind, method, system, comment]


def build(path, members, stream=False, archive_comment=b""):
    """members: list of member() in order"""
    with open(path, "wb") as f:
        with zipfile.ZipFile(_Stream(f) if stream else f, "w") as z:
            for name, data, date, kind, method, system, comment in members:
                zi = zipfile.ZipInfo(name, tuple(date))
                zi.external_attr = KINDS[kind]
                zi.compress_type = METHODS[method]
                zi.create_system = system
                zi.comment = comment.encode()
                z.writestr(zi, data_of(data) if not isinstance(data, bytes) else data, compress_type=METHODS[method])
            z.comment = archive_comment


def read(path):
    """-> [(attributes, content)] of every member, in order"""
    out = []
    with zipfile.ZipFile(path) as z:
        assert z.testzip() is None
        for i in z.infolist():
            out.append((tuple(i.is_dir() if a == "is_dir" else getattr(i, a) for a in ATTRS), z.read(i)))
    return out


def name_of(m):
    return m[0][0]


def digest(data):
    return "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def csv_field(s):
    return '"' + s.replace('"', '""') + '"' if any(c in s for c in ',"\n') else s


def record_line(name, data=None):
    if data is None:
        return f"{csv_field(name)},,"
    return f"{csv_field(name)},{digest(data)},{len(data)}"


def record_rows(data):
    return [r for r in csv.reader(io.StringIO(data.decode("utf8"), newline=""))]


def record_lines(data):
    """the lines without their ends"""
    return [line.rstrip("\r\n") for line in data.decode("utf8").split("\n")]
