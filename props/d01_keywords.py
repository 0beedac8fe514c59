"""D01: keywords of .cell and .param files."""
from props.common import digits, pint, real, sign, uint

from castep_outputs.parsers.cell_param_file_parser import parse_cell_file, parse_param_file

BOUNDS = ("up to 4 keywords per file (thorough 5) and up to 2 blocks around them, keys of 1..5 word characters of either case, every "
          "separator, comment marker and spacing listed, values: logicals in any case, integers of 1..4 digits, reals with "
          "0..3 digits either side and 2/3-digit exponents, ratios, vectors of 2..3 such numbers, units with symbolic letters, text of up to "
          "6 arbitrary printable characters; all digits, signs and letters symbolic")
OUTSIDE = "Fortran D exponents, quoted values, continuation lines, a value whose text is itself a unit-less list of words"
ASSUMPTIONS = []

SEPS = (" ", "   ", "\t", "=", ":", " = ", " : ", "\t=\t", ": ", " =")
TEXT = "".join(chr(c) for c in range(32, 127) if chr(c) not in "#!")
SOLID = TEXT[1:]


def value(S, kind):
    """Text of a value and what it means."""
    if kind == "int":
        t = S.choice("", sign(S)) + uint(S, S.choice(1, 2, 4))
        return t, int(t)
    if kind == "real":
        ip, fp = S.choice((1, 2), (0, 3), (2, 0))
        t = real(S, ip, fp, S.choice("", "sym"))
        return t, float(t)
    if kind == "exp":
        t = S.choice(real(S, 1, 2, "sym", (S.chars(1, "eE"), "sym", 2)), real(S, 1, 1, "", ("e", "", 1)),
                     digits(S, 2) + S.chars(1, "eE") + sign(S) + digits(S, 2))
        return t, float(t)
    if kind == "ratio":
        t = S.choice("", sign(S))
        a, b = pint(S, S.choice(1, 2)), "8"
        return t + a + "/" + b, float(t + a) / 8
    if kind == "logical":
        t = S.choice("T", "F", "TRUE", "FALSE")
        s = "".join(S.chars(1, c + c.lower()) for c in t)
        return s, t[0] == "T"
    if kind == "ints":
        v = [S.choice("", "-") + uint(S, 1), uint(S, 2), sign(S) + uint(S, 1)]
        return S.choice(" ", "  ", "\t").join(v), tuple(map(int, v))
    if kind == "reals":
        v = [real(S, 1, 3, ""), real(S, 2, 1, "sym"), real(S, 0, 2, "")][:S.choice(2, 3)]
        return S.choice(" ", "\t").join(v), tuple(map(float, v))
    if kind == "mixed":
        a, b, c = uint(S, 1), real(S, 1, 2, "sym"), sign(S) + uint(S, 2)
        v = S.choice([a, b, c], [b, a, c])
        return "  ".join(v), tuple(map(float, v))
    raise KeyError(kind)


def one(S, line, want, before="", after=""):
    parse = S.choice(parse_cell_file, parse_param_file) if not before else parse_cell_file
    out = parse(S.file(before + line + after))
    S.eq(out, [want], "one keyword")


def h_value(S):
    kind = S.choice("int", "real", "exp", "ratio", "logical", "ints", "reals", "mixed")
    t, v = value(S, kind)
    out = parse_param_file(S.file("cut_off" + S.choice(*SEPS[:6]) + t + S.choice("\n", "")))
    S.eq(out, [{"cut_off": v}], f"{kind} value")


def unit(S):
    return S.choice(S.chars(2, "alpha"), S.chars(1, "alpha"), "1/" + S.chars(3, "lower"), "ev/ang**" + digits(S, 1),
                    S.chars(2, "alpha") + digits(S, 1), "(" + S.chars(1, "alpha") + ")")


def h_unit(S):
    t, v = value(S, S.choice("int", "real", "exp", "ratio", "ints", "reals", "mixed"))
    u = unit(S)
    out = parse_cell_file(S.file("pressure" + S.choice(" ", "=", " : ") + t + S.choice(" ", "\t", "   ") + u + S.choice("\n", " \n")))
    S.eq(out, [{"pressure": (v, u)}], "value with unit")


def h_key(S):
    k = S.choice(S.chars(1, "alpha") + S.chars(S.choice(1, 4), "word"), S.chars(1, "alpha"), "k_" + digits(S, 1) + "x" + digits(S, 2),
                 "_" + S.chars(2, "alpha"))
    sep = S.choice(*SEPS)
    t = digits(S, 2)
    out = parse_cell_file(S.file(S.choice("", "  ", "\t") + k + sep + t + S.choice("", "  ", "\t") + "\n"))
    S.eq(out, [{k.lower(): int(t)}], "keyword")


def h_text(S):
    n = S.choice(1, 2, 4)
    body = S.chars(1, "ghijklmGHIJKLM_*(<@~'\"") + (S.chars(n - 2, TEXT) if n > 2 else "") + (S.chars(1, SOLID) if n > 1 else "")
    sep = S.choice(" ", " = ", ":", "\t")
    out = parse_param_file(S.file("task" + sep + body + S.choice("\n", "", "   \n")))
    S.eq(out, [{"task": body}], "text value")


def h_number_like(S):
    """Text that starts or ends like a number stays whole."""
    d = digits(S, 2)
    a = S.chars(1, "abcxyz")
    body = S.choice(d + a, d + "-" + digits(S, 2) + "-" + a, a + d + "." + d, d + "." + digits(S, 1) + a, d + "x" + d,
                    d + " " + a + " " + d, a + " " + d)
    out = parse_cell_file(S.file("name : " + body + "\n"))
    k = d + " " + a + " " + d
    S.eq(out, [{"name": body}], "text like a number")


def h_bare(S):
    """A logical keyword may stand alone."""
    k = S.chars(1, "alpha") + S.chars(S.choice(1, 3), "word")
    tail = S.choice("", "  ", " # " + S.chars(2, "print"), "!" + S.chars(1, "print"))
    out = parse_cell_file(S.file(S.choice("", " ") + k + tail + S.choice("\n", "")))
    S.eq(out, [{k.lower(): True}], "keyword alone")


def h_comments(S):
    c = S.choice("#", "!")
    junk = S.chars(S.choice(0, 1, 3), "print")
    t = real(S, 2, 1)
    where = S.choice("line", "indented", "trailing", "glued", "after unit", "after text", "before and after", "blank")
    full = c + junk + "\n"
    want = {"cut": float(t)}
    if where == "line":
        text = full + "cut " + t + "\n"
    elif where == "indented":
        text = "  " + full + "cut = " + t + "\n"
    elif where == "trailing":
        text = "cut " + t + "   " + full
    elif where == "glued":
        text = "cut:" + t + full
    elif where == "after unit":
        text = "cut " + t + " eV " + full
        want = {"cut": (float(t), "eV")}
    elif where == "after text":
        w = "w" + S.chars(2, SOLID)
        text = "cut : " + w + " " + full
        want = {"cut": w}
    elif where == "before and after":
        text = full + "cut " + t + "\n" + full
    else:
        text = S.choice("\n", "   \n", "\t\n") + "cut " + t + "\n\n"
    S.eq(parse_cell_file(S.file(text)), [want], "comments and blanks make no difference")


def block(S, k):
    """A block between keywords."""
    name = S.choice("lattice_abc", "x_block")
    case = S.choice("%block ", "%BLOCK ", "%Block  ")
    v = [real(S, 1, 2) for _ in range(3)]
    cm = S.choice("", " # " + S.chars(1, "print"))
    return (case + name + cm + "\n " + " ".join(v) + "\n" + S.choice("%endblock ", "%ENDBLOCK ", " %EndBlock ") + name + "\n",
            {name: {"data": [tuple(map(float, v))]}})


def h_between(S):
    """Keywords before, between and after blocks."""
    order = S.choice("bk", "kb", "kbk", "bkb", "kkb")
    text, want = "", {}
    nb = nk = 0
    for o in order:
        if o == "b":
            if nb:
                v = [digits(S, 1) for _ in range(3)]
                t, w = "%block other\n" + " ".join(v) + "\n%endblock other\n", {"other": {"data": [tuple(map(float, v))]}}
            else:
                t, w = block(S, nb)
            nb += 1
        else:
            v = uint(S, 2)
            t, w = f"key{nk} " + v + "\n", {f"key{nk}": int(v)}
            nk += 1
        text, want = text + t, {**want, **w}
    S.eq(parse_cell_file(S.file(text)), [want], "keywords around blocks")


def h_many(S):
    kinds = ["int", "logical", "reals", "exp", "real"][:5 if S.thorough else 4]
    rot = S.count(0, len(kinds) - 1)
    text, want = "", {}
    for n, k in enumerate(kinds[rot:] + kinds[:rot]):
        if k == "int":
            t = uint(S, 2)
            v = int(t)
        elif k == "logical":
            t = S.chars(1, "Tt") + S.chars(1, "Rr") + "ue"
            v = True
        elif k == "reals":
            f = [real(S, 1, 2), real(S, 1, 1, "")]
            t, v = " ".join(f), tuple(map(float, f))
        elif k == "exp":
            t = real(S, 1, 1, "", ("e", "sym", 2))
            v = float(t)
        else:
            t = real(S, 2, 2)
            v = (float(t), "eV")
            t += " eV"
        text += f"Key_{n}" + SEPS[(n + rot) % 6] + t + "\n"
        want[f"key_{n}"] = v
    S.eq(parse_param_file(S.file(text)), [want], "several keywords")


def h_last_wins(S):
    """Keys are case-insensitive: a repeated keyword is one entry, the later one kept."""
    def entry(k, kind):
        a = uint(S, 2)
        if kind == "text":
            w = "x" + S.chars(2, "lower") + "y"
            return k + " : " + w + "\n", w
        if kind == "bare":
            return k + "\n", True
        if kind == "unit":
            return k + "  " + a + ".5 eV\n", (float(a + ".5"), "eV")
        if kind == "vector":
            return k + "\t" + a + " 0 1\n", (int(a), 0, 1)
        if kind == "logical":
            return k + " = F\n", False
        if kind == "block":
            return "%block " + k + "\n " + a + ".0 2.0\n%endblock " + k + "\n", {"data": [(float(a + ".0"), 2.0)]}
        return k + " = " + a + "\n", int(a)
    kinds = ("number", "text", "bare", "unit", "vector", "logical", "block")
    first = S.choice(*kinds)
    then = S.choice(*kinds)
    t1, _ = entry("kp", first)
    t2, want = entry("kp" if then == "block" else S.chars(1, "kK") + S.chars(1, "pP"), then)
    mid = S.choice("", "other : 1\n")
    S.eq(parse_cell_file(S.file(t1 + mid + t2)), [{"kp": want, "other": 1} if mid else {"kp": want}], "repeated keyword")


def cases(tier):
    return [("value", h_value), ("unit", h_unit), ("key", h_key), ("text", h_text), ("number_like", h_number_like), ("bare", h_bare),
            ("comments", h_comments), ("between", h_between), ("many", h_many), ("last_wins", h_last_wins)]
