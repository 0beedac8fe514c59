"""C03: transition-state images, each under its own class, in order."""
from props.common import digits, real
from props.trajectory import ATOMS, frame

from castep_outputs.parsers.ts_file_parser import parse_ts_file

BOUNDS = ("1..4 images (thorough 6) in every order of classes, 0..3 atoms with tags, labels and wide indices, optional "
          "quantities, 2- and 3-digit exponents, separators with or without spaces, last blank line or newline missing, "
          "every search type in the title; all digits and signs symbolic; twelve images or atoms")
OUTSIDE = "blank lines inside an image; image numbers of more than three digits"
ASSUMPTIONS = ["exponents stay within the range of a double"]

NAMES = {"REA": "reagent", "PRO": "product", "TST": "test"}


def image(S, cls, tags=("E", "h"), atoms=2, props="RF", num=1, exp=("E", "sym", 3)):
    rc = real(S, 1, 3, sg=S.choice("", "-") if num == 2 else "", exp=exp)
    ls, w = frame(S, tags, ATOMS[atoms], props, exp=exp, step="no")
    head = " " + cls + " " * (5 - num) + digits(S, num) + "      " + rc + "\n"
    want = {"reaction_coordinate": float(rc), **{k: v for k, v in w.items() if k != "ions"}, **w["ions"]}
    return [head, *ls], (cls, want)


def run(S, images, title=" TSTYPE TSConfirmation\n", sep="\n", end="blank", pre=""):
    text = [title, pre]
    for ls, _ in images:
        text += [*ls, sep]
    if end == "none":
        text.pop()
    elif end == "nonl":
        text.pop()
        text[-1] = text[-1][:-1]
    out = parse_ts_file(S.file("".join(text)))
    want = {}
    if "TSConfirmation" in title:
        want["confirmation"] = True
    for _, (cls, w) in images:
        want.setdefault(NAMES[cls], []).append(w)
    S.eq(out, want, "images")


def h_order(S, n):
    run(S, [image(S, S.choice("REA", "PRO", "TST"), tags=("E",), atoms=1, props="R") for _ in range(n)])


def h_shape(S):
    tags = S.choice(("E", "h"), ("h",), (), ("E", "h", "S"))
    atoms = S.choice(*ATOMS)
    run(S, [image(S, "REA", tags, atoms, "RF"), image(S, "TST", tags, atoms, S.choice("RF", "R", "FR", "F"))])


def h_layout(S):
    num = S.choice(1, 2, 3)
    run(S, [image(S, "PRO", num=num), image(S, "TST", num=num)], sep=S.choice("\n", "  \n"),
        end=S.choice("blank", "none", "nonl"), pre=S.choice("", "\n"))


def h_title(S):
    t = S.choice(" TSTYPE TSConfirmation\n", " TSTYPE LSTMaximum\n", " TSTYPE LST/Optimization\n", " TSTYPE QST/Optimization\n",
                 "")
    run(S, [image(S, "REA"), image(S, "PRO"), image(S, "TST")], title=t)


def h_late(S):
    """The flag counts wherever it stands."""
    a, b = image(S, "REA"), image(S, "TST")
    flag = " TSTYPE TSConfirmation\n"
    at = S.choice("between", "end")
    text = "".join([*a[0], "\n", *([flag] if at == "between" else []), *b[0], "\n", *([flag] if at == "end" else [])])
    S.eq(parse_ts_file(S.file(text)), {"confirmation": True, "reagent": [a[1][1]], "test": [b[1][1]]}, "late flag")


def h_exp(S):
    e = S.choice(None, ("E", "sym", 2), ("E", "sym", 3))
    run(S, [image(S, "REA", exp=e), image(S, "TST", exp=e, atoms="wide")])


def h_many(S):
    """Counts past ten."""
    n = 30 if S.thorough else 12
    if S.flag():
        run(S, [image(S, ("REA", "TST", "PRO")[k % 3], tags=("E",), atoms=1, props="R", exp=None) for k in range(n)])
    else:
        run(S, [image(S, "TST", atoms="twelve", exp=None)])


def cases(tier):
    return [("many", h_many), *[(f"order{n}", h_order, dict(n=n)) for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6))], ("shape", h_shape),
            ("layout", h_layout), ("title", h_title), ("late", h_late), ("exp", h_exp)]
