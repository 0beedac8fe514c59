"""A binary stream whose bytes may be symbolic (layout concrete on each path)."""
from __future__ import annotations

from . import core
from .values import SymBytes, belems, concretize


def flat(data):
    out = []
    for d in data if isinstance(data, (list, tuple)) else [data]:
        out.extend(belems(d))
    return out


class SymBinFile:
    def __init__(self, data, name=None):
        self.buf = tuple(flat(data))
        self.pos = 0
        self.closed = False
        if name is not None:
            self.name = name

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._chk()
        core.EX.tick(1)
        if n is not None:
            n = concretize(n)
        end = len(self.buf) if n is None or n < 0 else min(len(self.buf), self.pos + n)
        end = max(end, self.pos)
        b = self.buf[self.pos:end]
        self.pos = max(self.pos, end)
        if all(type(x) is int for x in b):
            return bytes(b)
        return SymBytes(b)

    read1 = read

    def seek(self, off, whence=0):
        self._chk()
        core.EX.tick(1)
        off = concretize(off)
        p = off + (0, self.pos, len(self.buf))[whence]
        if p < 0:
            if whence == 0:
                raise ValueError(f"negative seek value {off}")
            p = 0
        self.pos = p
        return p

    def tell(self):
        self._chk()
        return self.pos

    def readable(self):
        return True

    def seekable(self):
        return True

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
