"""B02: binary values decode to exactly the bytes' big-endian meaning."""
from props.common import c128s, f64s, i32, rec

from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader
from castep_outputs.utilities.type_conv import parse_bytes

BOUNDS = ("records of up to 4 integers / reals (thorough 8), 2 logicals (thorough 3) and 3 complex numbers (thorough 5), text up to 8 "
          "ASCII characters, every byte symbolic; layouts of up to 5 records of every mix of types, cycles of up to 3 "
          "repetitions, as sequence and as mapping")
OUTSIDE = "record lengths that are not a multiple of the element size; non-ASCII text"
ASSUMPTIONS = ["doubles are compared bit for bit"]


def top(S, q, t):
    return t if S.thorough else q


def several(S, b, typ):
    """A single value asked of a record holding more is an error."""
    if len(b):
        for m in (1, 2):
            S.raises(ValueError, lambda: parse_bytes(b + bytes(len(b) * m), typ), f"one {typ.__name__} of several")


def h_int(S):
    n = S.count(0, top(S, 4, 8))
    b = S.bytes(4 * n)
    e = [i32(b[4 * k:4 * k + 4]) for k in range(n)]
    S.eq(parse_bytes(b, (int, ...)), e, "integers")
    if n == 1:
        S.eq(parse_bytes(b, int), e[0], "single integer")
    several(S, b[:4], int)


def h_bool(S):
    n = S.count(1, top(S, 2, 3))
    b = S.bytes(4 * n)
    e = [not (b[4 * k] == 0 and b[4 * k + 1] == 0 and b[4 * k + 2] == 0 and b[4 * k + 3] == 0) for k in range(n)]
    S.eq(parse_bytes(b, (bool, ...)), e, "logicals")
    if n == 1:
        S.eq(parse_bytes(b, bool), e[0], "single logical")
    several(S, b[:4], bool)


def h_float(S):
    n = S.count(0, top(S, 4, 8))
    b = S.bytes(8 * n)
    S.eq(parse_bytes(b, (float, ...)), f64s(b), "reals")
    if n == 1:
        S.eq(parse_bytes(b, float), f64s(b)[0], "single real")
    several(S, b[:8], float)


def h_complex(S):
    n = S.count(0, top(S, 3, 5))
    b = S.bytes(16 * n)
    S.eq(parse_bytes(b, (complex, ...)), c128s(b), "complex numbers")
    if n == 1:
        S.eq(parse_bytes(b, complex), c128s(b)[0], "single complex")
    several(S, b[:16], complex)


def h_text(S):
    n = S.count(0, 8)
    t = S.chars(n, "print")
    b = t.encode()
    S.eq(parse_bytes(b, str), t, "text")
    S.eq(parse_bytes(b, (str, ...)), (t,), "text sequence")


def h_bad_type(S):
    S.raises(TypeError, lambda: parse_bytes(S.bytes(4), "int"), "not a type")
    S.raises(TypeError, lambda: parse_bytes(S.bytes(8), (int, int)), "not a layout")


KINDS = ("i", "I", "d", "D", "z", "Z", "b", "B", "s")


def item(S, k):
    """(payload, requested type, expected)"""
    if k == "i":
        b = S.bytes(4)
        return b, int, i32(b)
    if k == "I":
        b = S.bytes(8)
        return b, (int, ...), (i32(b[:4]), i32(b[4:]))
    if k == "d":
        b = S.bytes(8)
        return b, float, f64s(b)[0]
    if k == "D":
        b = S.bytes(24)
        return b, (float, ...), f64s(b)
    if k == "z":
        b = S.bytes(16)
        return b, complex, c128s(b)[0]
    if k == "Z":
        b = S.bytes(32)
        return b, (complex, ...), c128s(b)
    if k in "bB":
        v = S.bytes(4 if k == "b" else 8)
        e = [not all(v[4 * j + m] == 0 for m in range(4)) for j in range(len(v) // 4)]
        return (v, bool, e[0]) if k == "b" else (v, (bool, ...), tuple(e))
    t = S.chars(5, "print")
    return t.encode(), str, t


def h_layout(S, how):
    """Reading by a layout gives each record, in order, to its name."""
    k = S.choice("iDs", "sIz", "Zdi", "ddI", "sisid", "bi", "D")
    its = [item(S, x) for x in k]
    extra = item(S, "i")
    f = S.binfile([p for b, _, _ in (*its, extra) for p in rec(b)])
    r = FortranBinaryReader(f)
    if how == "dict":
        got = r.get_dtype_dict({f"k{j}": t for j, (_, t, _) in enumerate(its)})
        S.eq(got, {f"k{j}": e for j, (_, _, e) in enumerate(its)}, "named records")
        S.eq(list(got), [f"k{j}" for j in range(len(its))], "order of names")
    elif how == "iter":
        S.eq(list(r.get_dtype_iter([t for _, t, _ in its])), [e for _, _, e in its], "records by type")
    else:
        S.eq([r.get(t) for _, t, _ in its], [e for _, _, e in its], "records one by one")
    S.eq(r.get(int), extra[2], "next record untouched")


def h_cycle(S):
    n = S.count(0, 3)
    k = S.choice("iD", "s", "sid")
    its = [[item(S, x) for x in k] for _ in range(n)]
    extra = item(S, "i")
    f = S.binfile([p for row in (*its, [extra]) for b, _, _ in row for p in rec(b)])
    r = FortranBinaryReader(f)
    typ = [item(S, x)[1] for x in k]
    if S.flag():
        got = list(r.get_dtype_cycle(tuple(typ), n=n))
        S.eq(got, [[e for _, _, e in row] for row in its], "cycles")
    else:
        got = list(r.get_dtype_cycle(dict(zip("abc", typ)), n=n))
        S.eq(got, [dict(zip("abc", [e for _, _, e in row])) for row in its], "named cycles")
    S.eq(r.get(int), extra[2], "next record untouched")


def cases(tier):
    return [("int", h_int), ("bool", h_bool), ("float", h_float), ("complex", h_complex), ("text", h_text),
            ("bad_type", h_bad_type), ("layout_dict", h_layout, dict(how="dict")),
            ("layout_iter", h_layout, dict(how="iter")), ("layout_get", h_layout, dict(how="get")), ("cycle", h_cycle)]
