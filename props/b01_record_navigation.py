"""B01: Fortran records are delivered in order under any navigation."""
from props.common import rec

from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader

BOUNDS = ("(a) files of up to 3 records (thorough 4) of any symbolic size from 0 to 2^31-9 bytes, (b) files of up to 4 "
          "(thorough 5) records with payloads of 0..9 symbolic bytes; every sequence of 3 (thorough 4) jumps to any "
          "record or the end of file by skip or rewind, records read after jumps, then the rest of the file; (c) jumps of up to 24 records among 24")
OUTSIDE = "sub-record chains of records over 2 GB, little-endian files, jumps outside the file"
ASSUMPTIONS = ["binary files behave as the io module documents for read/seek/tell"]


class Payload:
    """The payload of record i; only its identity and length matter."""

    def __init__(self, i, n):
        self.i, self.n = i, n

    def __len__(self):
        return self.n

    def sx_len(self):
        return self.n

    def __bool__(self):
        return bool(self.n != 0)


class WrongPlace(Exception):
    pass


class RecFile:
    """A binary file of records of symbolic sizes; every position is a symbolic sum."""

    def __init__(self, S, sizes):
        self.S, self.sizes = S, sizes
        self.marks = [S.be32(k) for k in sizes]
        self.pre = []
        p = 0
        for k in sizes:
            self.pre.append(p)
            p = p + k + 8
        self.end = p
        self.pos = 0
        self.ok = [*self.pre, p, *[q + 4 for q in self.pre[1:]], *[q - 4 for q in (*self.pre[1:], p)]]

    def read(self, k=-1):
        p = self.pos
        same = self.S.same
        for i, n in enumerate(self.sizes):      # fast path: the same sum
            pre = self.pre[i]
            if same(p, pre + 4) and same(k, n):
                self.pos = p + n
                return Payload(i, n)
            if type(k) is int and k == 4 and (same(p, pre) or same(p, pre + 4 + n)):
                self.pos = p + 4
                return self.marks[i]
        if same(p, self.end):
            return b""
        if p == self.end:
            return b""
        for i, n in enumerate(self.sizes):
            pre = self.pre[i]
            if type(k) is int and k == 4 and (p == pre or p == pre + 4 + n):
                self.pos = p + 4
                return self.marks[i]
            if p == pre + 4:
                if k == n:
                    self.pos = p + n
                    return Payload(i, n)
                raise WrongPlace(f"reads another length than record {i} has")
        raise WrongPlace("reads away from any record boundary")

    def seek(self, off, whence=0):
        p = off if whence == 0 else self.pos + off if whence == 1 else self.end + off
        if not any(self.S.same(p, q) for q in self.ok) and p < 0:
            raise WrongPlace("seeks before the start of the file")
        self.pos = p
        return p

    def tell(self):
        return self.pos


def walk(S, reader, n, expect, jumps):
    """Any sequence of jumps, each followed or not by reading a record; then the rest of the file."""
    i = 0
    for step in range(jumps):
        t = S.count(0, n)
        if t > i or (t == i and step == 1):
            reader.skip(t - i)
        elif t < i:
            if step % 2:
                reader.skip(t - i)
            else:
                reader.rewind(*([i - t] if i - t != 1 else []))
        i = t
        if step == 1 and S.flag():
            continue
        if i == n:
            S.raises(StopIteration, lambda: next(reader), "end of file")
        else:
            expect(next(reader), i, step)
            i += 1
    rest = 0
    for d in reader:
        expect(d, i + rest, "rest")
        rest += 1
    S.eq(rest, n - i, "records left")


def h_any_sizes(S, n, jumps):
    sizes = [S.int(0, 2**31 - 9) for _ in range(n)]
    reader = FortranBinaryReader(RecFile(S, sizes))

    def expect(d, i, step):
        S.eq(d.i, i, f"record delivered at step {step}")
        S.check(d.n == sizes[i], f"whole record delivered at step {step}")
    walk(S, reader, n, expect, jumps)


def h_payloads(S, n, shift, jumps):
    lens = [(0, 3, 1, 8, 4, 5, 9)[(j + shift) % 7] for j in range(n)]
    data = [S.bytes(k) for k in lens]
    reader = FortranBinaryReader(S.binfile([p for d in data for p in rec(d)]))

    def expect(d, i, step):
        S.eq(d, data[i], f"record payload at step {step}")
    walk(S, reader, n, expect, jumps)


def h_far(S):
    """Jumps over many records."""
    n = 24
    sizes = [S.int(0, 2**31 - 9) if k == 13 else (0, 3, 1, 8, 4, 5, 9)[k % 7] for k in range(n)]
    reader = FortranBinaryReader(RecFile(S, sizes))
    i = S.choice(24, 20, 11)
    reader.skip(i)
    for _ in range(2):
        t = S.choice(0, 1, 7, 15, 23, 24)
        if t < i:
            reader.rewind(i - t)
        elif t > i:
            reader.skip(t - i)
        i = t
        if i < n:
            S.eq(next(reader).i, i, "record delivered")
            i += 1
    S.eq([d.i for d in reader], list(range(i, n)), "records left")


def h_iterate(S, n):
    """Plain iteration delivers every payload, once, in order."""
    lens = [S.choice(0, 1, 4, 9) for _ in range(n)]
    data = [S.bytes(k) for k in lens]
    f = S.binfile([p for d in data for p in rec(d)])
    S.eq(list(FortranBinaryReader(f)), data, "records")
    S.raises(StopIteration, lambda: next(FortranBinaryReader(f)), "at the end")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 4 if q else 5):
        out.append((f"any_sizes{n}", h_any_sizes, dict(n=n, jumps=3 if q else 4), dict(weight=4)))
        if q and n < 3:
            out.append((f"any_sizes{n}long", h_any_sizes, dict(n=n, jumps=4), dict(weight=2)))
    for n in range(1, 5 if q else 6):
        for s in (0, 3) if q else range(7):
            out.append((f"payloads{n}_{s}", h_payloads, dict(n=n, shift=s, jumps=3 if q or n > 4 else 4)))
    out.append(("far", h_far, dict()))
    for n in range(0, 4 if q else 5):
        out.append((f"iterate{n}", h_iterate, dict(n=n)))
    return out
