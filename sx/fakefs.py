"""A small read-only file system whose contents and file existence may be symbolic.

Names are concrete and relative to the working directory; pathlib's own (pure) path
arithmetic is the real one.
"""
from __future__ import annotations

import fnmatch
import glob as _glob
import io
import os
import pathlib
import types

from . import models
from .binfile import SymBinFile
from .core import Unsupported

FILES: dict = {}      # name -> (content, exists)
DIRS: set = set()


def norm(p):
    p = os.path.normpath(os.fspath(p))
    here = os.getcwd() + "/"
    return p[len(here):] if p.startswith(here) else p


def add(files):
    FILES.clear()
    DIRS.clear()
    DIRS.add(".")
    for name, v in files.items():
        content, exists = v if isinstance(v, tuple) else (v, True)
        FILES[norm(name)] = (content, exists)
        d = os.path.dirname(norm(name))
        while d:
            DIRS.add(d)
            d = os.path.dirname(d)


def exists(p):
    f = FILES.get(norm(p))
    return f[1] if f is not None else False


def text_of(content):
    if isinstance(content, (list, tuple)):
        return models.str_join("", list(content))
    return content


class Out(io.StringIO):
    """A text file being written: what was there (when appending) and what is written, once closed."""

    def __init__(self, name, mode):
        if "b" in mode or "x" in mode or mode[0] == "r" or os.path.dirname(name) not in DIRS | {""}:
            raise Unsupported(f"opening {name} with mode {mode}")
        super().__init__()
        self.path = name
        if mode[0] == "a" and exists(name):
            self.write(text_of(FILES[name][0]))

    def close(self):
        if not self.closed:
            FILES[self.path] = (self.getvalue(), True)
        super().close()


def open_(p, mode="r", *a, **k):
    n = norm(p)
    if set(mode) & set("wax+"):
        return Out(n, mode)
    if not exists(p):
        raise FileNotFoundError(2, "No such file or directory", str(p))
    c = FILES[n][0]
    if "b" in mode:
        return SymBinFile(c, name=str(p))
    return models.SymTextFile(text_of(c), name=str(p))


def matches(root, pattern):
    parts = pathlib.PurePosixPath(pattern).parts
    if "**" in parts:
        raise Unsupported("recursive glob")
    base = [] if norm(root) == "." else norm(root).split("/")
    out = []
    for n in FILES:
        ps = n.split("/")
        if len(ps) != len(base) + len(parts) or ps[:len(base)] != base:
            continue
        if all(fnmatch.fnmatchcase(x, y) for x, y in zip(ps[len(base):], parts)):
            if exists(n):
                out.append(n)
    return out


class SymPath(pathlib.PosixPath):
    def is_file(self, **k):
        return exists(self)

    def exists(self, **k):
        return exists(self) if norm(self) not in DIRS else True

    def is_dir(self):
        return norm(self) in DIRS

    def stat(self, **k):
        if norm(self) in DIRS:
            return types.SimpleNamespace(st_size=0)
        if not exists(self):
            raise FileNotFoundError(2, "No such file or directory", str(self))
        c = FILES[norm(self)][0]
        parts = c if isinstance(c, (list, tuple)) else [c]
        return types.SimpleNamespace(st_size=sum(len(x) for x in parts))

    def open(self, mode="r", *a, **k):
        return open_(self, mode)

    def write_text(self, data, *a, **k):
        with open_(self, "w") as f:
            return f.write(data)

    def read_text(self, *a, **k):
        return open_(self).read()

    def read_bytes(self):
        return open_(self, "rb").read()

    def iterdir(self):
        return iter(self.glob("*"))

    def glob(self, pattern, **k):
        if not pattern:
            raise ValueError(f"Unacceptable pattern: {pattern!r}")
        if pathlib.PurePosixPath(pattern).is_absolute():
            raise NotImplementedError("Non-relative patterns are unsupported")
        for n in matches(self, pattern):
            rel = n if norm(self) == "." else os.path.relpath(n, norm(self))
            yield self / rel

    def rglob(self, pattern, **k):
        raise Unsupported("rglob")


def glob_glob(pattern, *, root_dir=None, recursive=False, include_hidden=False):
    return [os.path.normpath(n) for n in matches(root_dir or ".", os.fspath(pattern))]


def size(p):
    return SymPath(p).stat().st_size


def stubs():
    return {
        pathlib.Path: SymPath,
        pathlib.PosixPath: SymPath,
        open: open_,
        os.path.isfile: exists,
        os.path.exists: lambda p: SymPath(p).exists(),
        os.path.isdir: lambda p: SymPath(p).is_dir(),
        os.path.getsize: size,
        os.listdir: lambda p=".": [x.name for x in SymPath(p).glob("*")],
        _glob.glob: glob_glob,
        _glob.iglob: lambda *a, **k: iter(glob_glob(*a, **k)),
    }
