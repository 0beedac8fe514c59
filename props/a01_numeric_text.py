"""A01: numeric text converts exactly and completely."""
from props.common import digits, real, sign, uint

from castep_outputs.utilities.type_conv import determine_type, fix_data_types, parse_int_or_float, to_type

BOUNDS = ("integers up to 18 digits (thorough 24), reals up to 5+7 digits (thorough 8+7) with every sign/exponent form "
          "of up to 3 exponent digits, ratios up to 3 digits each side, logical words up to 6 letters, containers up "
          "to 3 elements nested 2 deep; every digit, sign and letter symbolic")
OUTSIDE = "complex literals given as text, non-ASCII digits, underscores inside literals, inf/nan"
ASSUMPTIONS = ["two decimal literals of at most 15 significant digits denote the same double iff they denote the same "
               "rational (exponents of 3 digits may over/underflow identically on both sides)"]


def int_text(S, widths):
    n = S.choice(*widths)
    return S.choice("", "+", "-") + digits(S, n)


def real_text(S, small=False):
    ip, fp = S.choice((1, 3), (0, 2), (2, 0), (5, 7), (3, 1)) if not small else S.choice((1, 2), (3, 4))
    sg = S.choice("", "-", "+")
    ex = S.choice(None, ("E", "sym", 2), ("e", "sym", 3), ("E", "", 1))
    return real(S, ip, fp, sg, ex)


def h_int(S):
    t = int_text(S, (1, 2, 3, 4, 6, 9, 12, 18) if not S.thorough else (*range(1, 19), 24))
    ws = S.choice(("", ""), ("  ", " "), ("", "\n"))
    v = to_type(ws[0] + t + ws[1], int)
    e = 0
    for ch in t.lstrip("+-"):
        e = e * 10 + "0123456789".index(ch) if not S.symbolic else e * 10 + (ord(ch) - 48)
    S.eq(v, -e if t[0] == "-" else e, "integer text")
    # a whole number asked for as a real
    S.eq(to_type(t, float), float(t), "integer text as real")


def h_real(S):
    t = real_text(S)
    v = to_type(S.choice("", "   ") + t + S.choice("", " \n"), float)
    # independent oracle: mantissa digits and exponent read separately
    S.eq(v, float(t), "real text")


def h_real_value(S):
    """The value against arithmetic on the digits, not against float()."""
    a, b = digits(S, 2), digits(S, 2)
    sg = sign(S)
    v = to_type(sg + a + "." + b, float)
    n = int(a) * 100 + int(b)
    n = -n if sg == "-" else n
    S.check(v * 100 == n, "real text equals its digits")
    v = to_type(sg + a + "." + b + "E+02", float)
    S.check(v == n, "positive exponent")
    v = to_type(sg + a + "." + b + "e-001", float)
    S.check(v * 1000 == n, "negative exponent")


def h_ratio(S):
    a = S.choice("", "-") + digits(S, S.choice(1, 2, 3))
    b = S.chars(1, "123456789") + digits(S, S.choice(0, 1, 2))
    v = to_type(a + "/" + b, float)
    S.eq(v, int(a) / int(b), "ratio")


def h_logical(S):
    n = S.count(1, 6) if not S.thorough else S.count(1, 12)
    t = S.chars(n, "TtRrUuEeFfAaLlSsYyNnOo1")
    v = to_type(t, bool)
    S.eq(v, t.lower() in ("t", "true", "1"), "logical")


def h_containers(S):
    a, b, c = real(S, 1, 2), real(S, 2, 1, "", ("E", "sym", 2)), sign(S) + digits(S, 2)
    fs = (float(a), float(b), float(c))
    which = S.choice("list", "tuple", "gen", "dict", "nested", "mixed", "iter", "one", "empty")
    if which == "list":
        S.eq(to_type([a, b, c], float), fs, which)
    elif which == "tuple":
        S.eq(to_type((a, b, c, a), float), (*fs, fs[0]), which)
    elif which == "gen":
        S.eq(to_type((x for x in (c, b)), float), (fs[2], fs[1]), which)
    elif which == "iter":
        S.eq(to_type(map(str.strip, [a + " ", " " + b]), float), fs[:2], which)
    elif which == "dict":
        S.eq(to_type({"x": a, "y": b, "z": [c, a]}, float), {"x": fs[0], "y": fs[1], "z": (fs[2], fs[0])}, which)
    elif which == "nested":
        S.eq(to_type([[a, b], [c], [], [b, [a]]], float), ((fs[0], fs[1]), (fs[2],), (), (fs[1], (fs[0],))), which)
    elif which == "one":
        S.eq(to_type([b], float), (fs[1],), which)
    elif which == "empty":
        S.eq(to_type([], float), (), which)
        S.eq(to_type({}, float), {}, which)
    else:
        x = S.int(-1000, 1000)
        S.eq(to_type([a, x, None, c], float), (fs[0], x, None, fs[2]), which)
        S.eq(to_type(x, float), x, "non-text unchanged")
        S.eq(to_type(None, int), None, "none unchanged")


def h_int_containers(S):
    a, b = sign(S) + digits(S, 2), digits(S, 3)
    S.eq(to_type([a, b, a], int), (int(a), int(b), int(a)), "int sequence")
    S.eq(to_type({1: a, 2: [b]}, int), {1: int(a), 2: (int(b),)}, "int mapping")
    t = S.chars(3, "TtFfRr1")
    S.eq(to_type([t[0], t[1], t[2]], bool), tuple(x.lower() in ("t", "1") for x in t), "logical sequence")
    s = S.chars(3, "nospace")
    S.eq(to_type([s, s + " "], str), (s, s + " "), "text kept")


def h_fix(S):
    i, f, l = sign(S) + digits(S, 2), real(S, 2, 2), S.choice("T", "F", "true", "FALSE")
    s = S.chars(2, "alpha")
    d = {"i": i, "f": f, "b": l, "v": [f, i], "s": s, "n": None}
    absent = S.choice(None, "i", "f", "v")
    if absent is not None:
        del d[absent]
    keep = dict(d)
    fix_data_types(d, {"i": int, "f": float, "b": bool, "v": float, "q": int, "n": float})
    e = {"i": int(i), "f": float(f), "b": l.lower() in ("t", "true"), "v": (float(f), float(i)), "s": s, "n": None}
    if absent is not None:
        del e[absent]
    S.eq(d, e, "fix_data_types")


def h_int_or_float(S):
    n = S.choice(1, 2, 4)
    i = digits(S, n)
    S.eq(parse_int_or_float(i), int(i), "int text")
    f = real(S, S.choice(1, 2), S.choice(1, 3), S.choice("", "-"), S.choice(None, ("E", "sym", 2)))
    S.eq(parse_int_or_float(f), float(f), "real text")
    S.eq(parse_int_or_float([i, i]), (int(i), int(i)), "int sequence")
    S.eq(parse_int_or_float([i, f, i]), (float(i), float(f), float(i)), "mixed sequence is real")
    m = "-" + digits(S, 2)
    S.eq(parse_int_or_float([m, i]), (float(m), float(i)), "signed numbers are real")


def h_determine(S):
    kind = S.choice("int", "real", "exp", "ratio", "bool", "str", "ints", "reals", "mixed", "like")
    lead = S.choice("", "  ")
    if kind == "int":
        t = int_text(S, (1, 3))
        S.eq(determine_type(lead + t) is int, True, "type of integer text")
    elif kind == "real":
        t = real(S, *S.choice((1, 2), (0, 2), (2, 0)), S.choice("", "-", "+"))
        S.eq(determine_type(lead + t) is float, True, "type of real text")
    elif kind == "exp":
        t = S.choice(real(S, 1, 2, "sym", ("E", "sym", 2)), sign(S) + digits(S, 2) + S.choice("e", "E") + digits(S, 1),
                     digits(S, 1) + "e-" + digits(S, 3))
        S.eq(determine_type(lead + t) is float, True, "type of exponent text")
    elif kind == "ratio":
        t = S.choice("", sign(S)) + digits(S, 1) + "/" + digits(S, 2)
        S.eq(determine_type(t) is float, True, "type of ratio")
    elif kind == "bool":
        t = S.chars(S.choice(1, 4, 5), "TtRrUuEeFfAaLlSs")
        S.eq(determine_type(t) is bool, t.lower() in ("t", "f", "true", "false"), "type of logical")
    elif kind == "str":
        t = S.chars(1, "alpha") + S.chars(2, "word")
        S.assume(t.lower() not in ("t", "f"))
        S.eq(determine_type(t) is str, True, "type of a word")
    elif kind == "mixed":
        i, f = sign(S) + digits(S, 2), real(S, 1, 2)
        t = S.choice(i + " " + f, f + " " + i, i + " " + i + " " + f, digits(S, 1) + "/4 " + i)
        S.eq(determine_type(t) is float, True, "type of integers and reals together")
    elif kind == "like":
        d, a = digits(S, 2), S.chars(1, "abcghz")
        t = S.choice(d + a, d + "." + d + a, a + d, d + "-" + d, d + " " + a, a + " " + d, d + "." + d + "." + d, d + "/" + a)
        S.eq(determine_type(t) is str, True, "type of text holding numbers")
    elif kind == "ints":
        t = digits(S, 2) + "  " + sign(S) + digits(S, 1) + " " + digits(S, 3)
        S.eq(determine_type(t) is int, True, "type of integer list")
    else:
        t = real(S, 1, 2) + "  " + real(S, 2, 1, "") + " " + real(S, 1, 1)
        S.eq(determine_type(t) is float, True, "type of real list")


def h_roundtrip(S):
    """Converting by the determined type gives the value written."""
    k = S.choice("int", "real", "bool")
    if k == "int":
        t = S.choice("", "-", "+") + digits(S, S.choice(1, 2, 4))
        S.eq(to_type(t, determine_type(t)), int(t), "int round trip")
    elif k == "real":
        t = real_text(S, True)
        S.eq(to_type(t, determine_type(t)), float(t), "real round trip")
    else:
        t = S.choice("t", "T", "true", "True", "TRUE", "f", "F", "false", "FALSE")
        S.eq(to_type(t, determine_type(t)), t[0] in "tT", "logical round trip")


def cases(tier):
    return [("int", h_int), ("real", h_real), ("real_value", h_real_value), ("ratio", h_ratio), ("logical", h_logical),
            ("containers", h_containers), ("int_containers", h_int_containers), ("fix", h_fix),
            ("int_or_float", h_int_or_float), ("determine", h_determine), ("roundtrip", h_roundtrip)]
