"""C06: grid, Hugoniot and structure-factor files, every row and column in order."""
from props.common import digits, floats, pad, real, uint

from castep_outputs.parsers.hug_file_parser import parse_hug_file
from castep_outputs.parsers.parse_fmt_files import (parse_chdiff_fmt_file, parse_den_fmt_file, parse_elf_fmt_file,
                                                   parse_pot_fmt_file)
from castep_outputs.parsers.xrd_sf_file_parser import parse_xrd_sf_file

BOUNDS = ("grids: 0..8 rows (thorough 16), 1..4 value columns of any name, grid indices of 1..5 digits, header present in every "
          "length 0..6 lines, blank lines between rows, integers and reals with 2- or 3-digit exponents; Hugoniot: 0..6 rows (thorough 10) "
          "with or without marker, negative values and exponents; structure factors: 0..3 rows, 1..6 columns in any order, "
          "Miller indices of 1..3 digits with sign; all digits and signs symbolic; twelve rows (thorough 40) of each")
OUTSIDE = "structure-factor rows that do not follow the header; values printed without separating space"
ASSUMPTIONS = ["exponents stay within the range of a double"]

FMT = {"den": parse_den_fmt_file, "pot": parse_pot_fmt_file, "elf": parse_elf_fmt_file, "chdiff": parse_chdiff_fmt_file}
HEAD = [" BEGIN header\n", "\n", "           Real Lattice(A)               Lattice parameters(A)    Cell Angles\n",
        "     2.6954645     2.6954645     0.0000000     a =    3.811962  alpha =   60.000000\n", "\n",
        "   1                            ! nspins\n", "  24    24    24                ! fine FFT grid along <a,b,c>\n"]
UNITS = {"charge": " in units of electrons/grid_point * number of grid_points", "pot": " in units of Hartrees"}


def fmt(S, kind, cols, rows, nd=1, head=7, blank="\n", between="", form=(3, 6, None), final="\n"):
    text = [*HEAD[:head], ' END header: data is "<a b c> ' + " ".join(cols) + '"' + UNITS.get(cols[0], "") + "\n", blank]
    want = {}
    for r in range(rows):
        q = [uint(S, nd) for _ in range(3)]
        v = [real(S, form[0], form[1], exp=form[2]) for _ in cols]
        text.append("".join(pad(x, 6) if nd < 6 else " " + x for x in q) + "".join(pad(x, 20) for x in v) + "\n")
        if between and r + 1 < rows:
            text.append(between)
        want.setdefault("q", []).append(tuple(int(x) for x in q))
        for c, x in zip(cols, v):
            want.setdefault(c, []).append(float(x))
    if not final and rows:
        text[-1] = text[-1][:-1]
    S.eq(FMT[kind](S.file("".join(text))), want, kind + "_fmt")


def h_kinds(S):
    kind = S.choice(*FMT)
    cols = S.choice(("charge",), ("charge", "spin"), ("chi_alpha", "chi_beta"), ("pot",), ("pot_up", "pot_down"),
                    ("charge", "mx", "my", "mz"))
    fmt(S, kind, cols, S.count(0, 2))


def h_rows(S):
    fmt(S, "den", ("charge", "spin"), S.count(0, 16 if S.thorough else 8), nd=S.choice(1, 2, 5), final=S.flag())


def h_layout(S):
    fmt(S, "pot", ("pot",), 3, head=S.choice(1, 3, 7), blank=S.choice("\n", "", "\n\n", "    \n"),
        between=S.choice("", "\n", "  \n"))


def h_values(S):
    # a grid value may be printed without decimals, with an exponent, or as large as the column allows
    f = S.choice((1, 0, None), (0, 4, None), (8, 6, None), (1, 6, ("E", "sym", 2)), (1, 6, ("E", "sym", 3)), (1, 6, ("e", "+", 2)))
    fmt(S, "elf", ("chi_alpha", "chi_beta"), 2, form=f)


def h_bad(S):
    """A row with more or fewer values than the header names is an error."""
    cols = ("chi_alpha", "chi_beta")
    n = S.choice(1, 3)
    v = [real(S, 1, 6) for _ in range(n)]
    text = [*HEAD, ' END header: data is "<a b c> chi_alpha chi_beta"\n', "\n", "     1     1     1  " + "  ".join(v) + "\n"]
    S.raises(ValueError, lambda: parse_elf_fmt_file(S.file("".join(text))), "row of the wrong length")


HUG = ("compression", "temperature", "pressure", "energy")


def h_hug(S):
    rows = S.choice(*range(11 if S.thorough else 7), 12)
    mark = S.choice("  <-- cTPE", "", "   ")
    exp = S.choice(None, ("E", "sym", 2), ("E", "sym", 3))
    text, want = [], {}
    for _ in range(rows):
        v = [real(S, 1, 12, sg="", exp=exp), *[real(S, S.choice(2) if exp is None else 1, 8, exp=exp) for _ in range(3)]]
        text.append("  " + "   ".join(v) + mark + "\n")
        for c, x in zip(HUG, v):
            want.setdefault(c, []).append(float(x))
    if rows and S.flag():
        text[-1] = text[-1][:-1]
    S.eq(parse_hug_file(S.file("".join(text))), want, "hug")


def h_hug_extra(S):
    """Lines without a row do not disturb the rows."""
    text, want = [], {c: [] for c in HUG}
    extra = S.choice("\n", " # Hugoniot\n", "  <-- cTPE\n")
    for _ in range(2):
        v = [real(S, S.choice(1, 4), 4) for _ in range(4)]
        text += [extra, "  " + "  ".join(v) + "  <-- cTPE\n"]
        for c, x in zip(HUG, v):
            want[c].append(float(x))
    S.eq(parse_hug_file(S.file("".join(text))), want, "hug")


XRD = ("F_PAW", "F_IAM", "F_PP", "F_core", "F_soft", "F_aug")


def xrd(S, cols, rows, nd=1, order="ri", ip=2, final="\n", sg=""):
    parts = [("Re", "Im") if order == "ri" else ("Im", "Re")] * len(cols)
    heads = [f"{p}({c})" for c, pp in zip(cols, parts) for p in pp]
    text = ["   h   k   l " + " ".join(pad(h, 11) for h in heads) + "\n"]
    want = {}
    for _ in range(rows):
        q = [(sg and S.chars(1, "+-")) + uint(S, nd) for _ in range(3)]
        v = [real(S, ip, 6) for _ in heads]
        text.append("".join(pad(x, 4) if len(x) < 4 else " " + x for x in q) + " " + " ".join(v) + "\n")
        want.setdefault("qvec", []).append(tuple(int(x) for x in q))
        for n, c in enumerate(cols):
            a, b = (float(x) for x in v[2 * n:2 * n + 2])
            if order != "ri":
                a, b = b, a
            want.setdefault(c.lower(), []).append(complex(a, b))
    if not final and rows:
        text[-1] = text[-1][:-1]
    S.eq(parse_xrd_sf_file(S.file("".join(text))), want, "xrd_sf")


def h_xrd(S):
    cols = S.choice(XRD, XRD[:1], XRD[::-1], XRD[3:5])
    xrd(S, cols, S.count(0, 3), final=S.flag())


def h_xrd_form(S):
    xrd(S, XRD[:2], 2, nd=S.choice(1, 2, 3), order=S.choice("ri", "ir"), ip=S.choice(1, 3), sg=S.choice("", "sym"))


def h_many(S):
    """More than ten rows."""
    n = 40 if S.thorough else 12
    if S.flag():
        fmt(S, "den", ("charge",), n)
    else:
        xrd(S, XRD[:4], n)


def cases(tier):
    return [("many", h_many), ("grids", h_kinds), ("grid_rows", h_rows), ("grid_layout", h_layout), ("grid_values", h_values), ("grid_bad", h_bad),
            ("hug", h_hug), ("hug_extra", h_hug_extra), ("xrd", h_xrd), ("xrd_form", h_xrd_form)]
