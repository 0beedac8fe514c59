"""A02: number extraction finds every number in a line, whole and in order."""
import re

from props.common import digits, nz, real, sign

from castep_outputs.utilities.castep_res import (
    ATOMIC_DATA_3VEC,
    ATOMIC_DATA_FORCE,
    ATOMIC_DATA_TAG,
    FLOAT_RAT_RE,
    NUMBER_RE,
    get_numbers,
    labelled_floats,
)

BOUNDS = ("lines of up to 7 numbers (thorough 12) of every printed form (signed/unsigned integers up to 8 digits, reals "
          "up to 4+8 digits incl. '.5' and '5.', exponents of 1-3 digits with any sign, ratios), joined by whitespace "
          "of 1-3 characters, punctuation or the sign of the next number, with words of up to 5 symbolic letters "
          "around them; labelled extraction up to 6 labels (thorough 9) with counts up to 9; every digit, sign and letter symbolic")
OUTSIDE = "numbers glued to letters without separator; exponents of more than three digits; Fortran D exponents"
ASSUMPTIONS = []


def number(S, form):
    """(text) of one number, by form."""
    if form == "int":
        return digits(S, 3)
    if form == "sint":
        return sign(S) + digits(S, 2)
    if form == "long":
        return digits(S, 8)
    if form == "one":
        return digits(S, 1)
    if form == "real":
        return real(S, 2, 4, "")
    if form == "sreal":
        return real(S, 4, 8)
    if form == "dot":
        return real(S, 0, 3)
    if form == "tail":
        return real(S, 2, 0)
    if form == "exp3":
        return real(S, 1, 6, "sym", ("E", "sym", 3))
    if form == "exp2":
        return real(S, 1, 3, "", ("e", "sym", 2))
    if form == "exp1":
        return real(S, 1, 2, "", ("E", "", 1))
    if form == "iexp":
        return sign(S) + digits(S, 2) + "E" + sign(S) + digits(S, 2)
    raise AssertionError(form)


FORMS = ("int", "sint", "long", "one", "real", "sreal", "dot", "tail", "exp3", "exp2", "exp1", "iexp")


def h_pairs(S):
    """Every ordered pair of forms, every separator kind."""
    f, g = S.choice(*FORMS), S.choice(*FORMS)
    sep = S.choice(" ", "   ", ", ", "\t", " : ", ") (", "|", " = ")
    a, b = number(S, f), number(S, g)
    S.eq(get_numbers(a + sep + b), [a, b], f"{f}{sep!r}{g}")


def h_line(S, n):
    forms = S.choice(("real",) * n, ("exp3",) * n, ("sint",) * n, ("int", "sreal", "exp2", "dot", "iexp", "tail", "one")[:n],
                     ("sreal", "int", "tail", "exp1", "long", "dot", "exp3")[:n])
    pre, post = S.choice(("", ""), ("  ", "\n"), ("Energy: ", " eV\n"), ("k( ", ")"), (" x = ", " <-- R"))
    ts = [number(S, f) for f in forms]
    line = pre + S.choice(" ", "    ", ", ").join(ts) + post
    S.eq(get_numbers(line), ts, "numbers of a line")


def h_glued(S):
    """Fixed-width columns run together: the sign separates."""
    f = S.choice("real", "sreal", "dot", "exp3", "exp2", "int")
    a, b = number(S, f), sign(S) + real(S, 2, S.choice(1, 4), "")
    c = sign(S) + real(S, 1, 6, "", ("E", "sym", 3))
    S.eq(get_numbers(a + b + c), [a, b, c], f"{f} run together")


def h_words(S):
    """Words neither hide nor invent numbers."""
    w1 = S.chars(S.choice(1, 3, 5), "alpha")
    w2 = S.chars(S.choice(1, 4), "abcdeEfghXYZ")
    a = number(S, S.choice("int", "sreal", "exp3"))
    S.eq(get_numbers(w1 + " " + a + " " + w2), [a], "number between words")
    S.eq(get_numbers(w1 + " " + w2), [], "no number in words")
    S.eq(get_numbers(w1 + " = " + a + S.choice(",", ";", " ", ")", "|", "%") + w2), [a], "delimited number")


def h_rational(S):
    f = S.choice("int", "real", "exp3")
    a = nz(S) + digits(S, S.choice(0, 1))
    b = nz(S) + digits(S, S.choice(0, 2))
    r = a + "/" + b
    x = number(S, f)
    S.eq(FLOAT_RAT_RE.findall("  " + r + "  " + x + "\n"), [r, x], "ratio first")
    S.eq(FLOAT_RAT_RE.findall(x + " " + r), [x, r], "ratio last")
    S.eq(FLOAT_RAT_RE.findall("Spin=" + r), [r], "ratio in text")


def h_whole(S):
    """A single number is recognised as a whole."""
    f = S.choice(*FORMS)
    a = number(S, f)
    m = NUMBER_RE.search("  " + a + "  ")
    S.check(m is not None, "number found")
    S.eq(m.group(0), a, f"{f} whole")


def h_labels(S):
    """Labelled values get the number at their position."""
    n = S.count(1, 6 if not S.thorough else 9)
    names = ("a", "b_2", "u", "v", "w", "zz")[:n]
    f = S.choice("real", "sreal", "exp3", "sint", "tail")
    which = S.choice("ws", "colon", "bar", "suffix")
    sep, s, suf, sx = {"ws": (r"\s+?", "  ", "", ""), "colon": (":", ":", "", ""),
                       "bar": (r"\s*\|\s*", "  | ", "", ""), "suffix": (r"\s+?", " ", "%", "%")}[which]
    ts = [number(S, f) for _ in names]
    m = re.match(labelled_floats(names, sep=sep, suffix=suf), "".join(s + t + sx for t in ts) + "  \n")
    S.check(m is not None, "labelled line recognised")
    S.eq(m.groupdict(), dict(zip(names, ts)), "labelled values")


def h_counts(S):
    c = S.choice((3, 1), (2, 2), (1, 6), (9, None), (None, 3))
    f = S.choice("real", "exp3", "sint")
    ts = [[number(S, f) for _ in range(k or 1)] for k in c]
    m = re.match(labelled_floats(("p", "q"), counts=c), "".join("  " + t for g in ts for t in g) + "\n")
    S.check(m is not None, "counted line recognised")
    S.eq([x.split() for x in (m["p"], m["q"])], ts, "counted values")


def h_atom_rows(S):
    """Atom row expressions give species, index and the three numbers."""
    spec = S.chars(1, "upper") + S.chars(S.choice(0, 1, 2), "lower") + S.choice("", ":tag1", " [lbl]")
    idx = nz(S) + digits(S, S.choice(0, 2))
    f = S.choice("sreal", "exp3", "real")
    ts = [number(S, f) for _ in range(3)]
    row = spec + "   " + idx + "  " + "   ".join(ts)
    exp = {"spec": spec, "index": idx, "x": ts[0], "y": ts[1], "z": ts[2]}
    S.eq(ATOMIC_DATA_3VEC.search(row + "\n").groupdict(), exp, "atom row")
    S.eq(ATOMIC_DATA_TAG.match(" " + row + "  <-- R\n").groupdict(), {**exp, "tag": "R"}, "tagged atom row")
    frow = spec + "   " + idx + "  " + " ".join(t + S.choice("", "(cons'd)") for t in ts)
    S.eq(ATOMIC_DATA_FORCE.search("* " + frow + " *\n").groupdict(), exp, "constrained force row")


def cases(tier):
    out = [("pairs", h_pairs, {}, dict(weight=3)), ("words", h_words), ("glued", h_glued), ("rational", h_rational),
           ("whole", h_whole), ("labels", h_labels), ("counts", h_counts), ("atom_rows", h_atom_rows)]
    for n in (1, 2, 3, 4, 5, 7) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 10, 12):
        out.append((f"line{n}", h_line, dict(n=n)))
    return out
