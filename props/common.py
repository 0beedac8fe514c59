"""Builders of symbolic text shared by the harnesses.

A numeric field is a template: sign, digit counts and exponent form are concrete on a path,
the digits (and usually the sign character) are symbolic.
"""


def digits(S, n):
    return S.chars(n, "digit")


def nz(S):
    """A non-zero digit."""
    return S.chars(1, "123456789")


def uint(S, n=1):
    """Unsigned integer text of n digits, no leading zero (n=1 may be 0)."""
    return digits(S, 1) if n == 1 else nz(S) + digits(S, n - 1)


def pint(S, n=1):
    """Positive integer text."""
    return nz(S) + (digits(S, n - 1) if n > 1 else "")


def sign(S):
    return S.chars(1, "+-")


def real(S, ip=1, fp=3, sg="sym", exp=None):
    """Real number text.  sg: 'sym' symbolic +/-, '' none, or a literal; exp: None or (letter, sign, ndigits)."""
    t = sign(S) if sg == "sym" else sg
    t = t + (digits(S, ip) if ip else "") + "." + (digits(S, fp) if fp else "")
    if exp is not None:
        letter, es, n = exp
        # three-digit exponents stay within the range of a double
        t = t + letter + (sign(S) if es == "sym" else es) + (S.chars(1, "012") + digits(S, 2) if n == 3 else digits(S, n))
    return t


EXP3 = ("E", "sym", 3)
EXP2 = ("E", "sym", 2)


def fields(S, n, ip=2, fp=4, sg="sym", exp=None):
    return [real(S, ip, fp, sg, exp) for _ in range(n)]


def floats(ts):
    return tuple(float(t) for t in ts)


def pad(t, w):
    return t.rjust(w) if len(t) < w else t


def vary(S, default, *alts):
    """default on the first alternative, one deviation otherwise."""
    return S.choice(default, *alts)


# ------------------------------------------------------------- Fortran records
def rec(*parts):
    """One unformatted record: marker, payload, marker."""
    n = sum(len(p) for p in parts)
    m = n.to_bytes(4, "big")
    return [m, *parts, m]


def flat_len(parts):
    return sum(len(p) for p in parts)


def be_i32(x):
    return x.to_bytes(4, "big", signed=True)


def i32(b):
    """Big-endian two's complement integer of four bytes (independent arithmetic)."""
    v = ((b[0] * 256 + b[1]) * 256 + b[2]) * 256 + b[3]
    return v - 4294967296 * (b[0] // 128)


def f64(b):
    """Big-endian double of eight bytes."""
    import struct
    return struct.unpack(">d", b)[0]


def f64s(b):
    return tuple(f64(b[k:k + 8]) for k in range(0, len(b), 8))


def c128s(b):
    return tuple(complex(f64(b[k:k + 8]), f64(b[k + 8:k + 16])) for k in range(0, len(b), 16))
