"""C01: every frame of a trajectory, under the right tag and atom."""
from props.trajectory import ATOMS, HEADERS, frame

from castep_outputs.parsers.md_geom_file_parser import parse_geom_file, parse_md_file

BOUNDS = ("1..5 frames (thorough 8), 0..3 atoms with tags, labels and indices up to 6 digits, every subset of "
          "optional quantities at once or one missing at a time, 2- and 3-digit exponents, header present, absent, with comment, last blank line "
          "or newline missing, time or integer or tagged step line, lines of a frame in four orders, atoms that carry different properties; all digits and signs symbolic; twelve frames or atoms (thorough 40)")
OUTSIDE = "convergence flags of .geom step lines (not returned by the parser); blank lines inside a frame; empty frames"
ASSUMPTIONS = ["exponents stay within the range of a double"]

TAGS = ("E", "T", "P", "h", "hv", "S")


def run(S, frames, header="std", end="blank", parse=parse_md_file, gap="\n"):
    text = [HEADERS[header]]
    for i, (ls, _) in enumerate(frames):
        text += ls
        if i < len(frames) - 1:
            text.append(gap)
    if end == "blank":
        text.append("\n")
    elif end == "spaces":
        text.append("  \n")
    elif end == "nonl":
        text[-1] = text[-1][:-1]
    out = parse(S.file("".join(text)))
    S.eq(out, [w for _, w in frames], "frames")


def h_shape(S, n):
    """Frames of one shape."""
    atoms = ATOMS[S.choice(1, 2, 3)]
    tags = S.choice(TAGS, ("E", "h", "S"), ("E", "T", "h", "hv"), ())
    props = S.choice("RVF", "RF", "R", "FVR") if tags is TAGS else "RVF"
    run(S, [frame(S, tags, atoms, props) for _ in range(n)])


def h_missing(S):
    """Frames that differ: one quantity present in only one of them."""
    gone = S.choice(*TAGS)
    which = S.count(0, 1)
    fr = []
    for i in range(2):
        fr.append(frame(S, tuple(t for t in TAGS if (t != gone) or i == which), ATOMS[1], "RVF" if i == which else "RF"))
    run(S, fr)


def h_atoms(S):
    a = S.choice(0, "label", "wide", "order")
    run(S, [frame(S, ("E", "h"), ATOMS[a], "RVF") for _ in range(2)])


def h_header(S):
    h = S.choice(*HEADERS)
    end = S.choice("blank", "none", "nonl", "spaces")
    gap = S.choice("\n", "  \n")
    n = S.choice(1, 2)
    run(S, [frame(S, ("E",), ATOMS[1], "RF") for _ in range(n)], h, end, gap=gap)


def h_exp(S):
    e = S.choice(None, ("E", "sym", 2), ("e", "sym", 2), ("E", "+", 3), ("E", "-", 1))
    run(S, [frame(S, TAGS, ATOMS[2], "RVF", exp=e) for _ in range(2)])


def h_step(S):
    p = S.choice(parse_md_file, parse_geom_file)
    s = S.choice("geom", "int", None)
    run(S, [frame(S, ("E", "h"), ATOMS[2], "RF", step=s) for _ in range(3)], parse=p)


def h_mixed(S):
    """Frames with different atoms stay apart."""
    run(S, [frame(S, ("E",), ATOMS[S.choice(1, 3)], "RF"), frame(S, ("h",), ATOMS[2], "RV"),
            frame(S, (), ATOMS[S.choice(0, 1)], "F")])


def h_partial(S):
    """Atoms of one frame that carry different properties."""
    a, b, c = ATOMS[3]
    which = S.choice((("R", (a, b, c)), ("V", (b,)), ("F", (a, c))), (("R", (a,)), ("F", (b, c))), (("V", (c, a)), ("R", (b, a))))
    fr = []
    for _ in range(2):
        ls, w = frame(S, ("E",), (), "")
        for p, atoms in which:
            more, v = frame(S, (), atoms, p, step="none")
            ls += more
            for k, d in v["ions"].items():
                w["ions"].setdefault(k, {}).update(d)
        fr.append((ls, w))
    run(S, fr)


def h_lines(S):
    """The lines of a frame in other orders: rows of one tensor or of one property keep theirs."""
    how = S.choice("ions first", "by atom", "between")
    fr = []
    for _ in range(2):
        ls, w = frame(S, ("E", "h", "S"), ATOMS[2], "RVF")
        head, cell, ions = ls[:1], ls[1:8], ls[8:]
        if how == "ions first":
            ls = head + ions + cell
        elif how == "by atom":
            ls = head + cell + ions[::2] + ions[1::2]
        else:
            ls = head + cell[:1] + ions[:2] + cell[1:4] + ions[2:4] + cell[4:] + ions[4:]
        fr.append((ls, w))
    run(S, fr)


def h_many(S):
    """Counts past ten."""
    n = 40 if S.thorough else 12
    if S.flag():
        run(S, [frame(S, ("E",), ATOMS[1], "R", exp=None) for _ in range(n)])
    else:
        run(S, [frame(S, ("E", "h"), [("Si", str(k + 1)) for k in range(n)], "RVF", exp=None)])


def cases(tier):
    return [("many", h_many), *[(f"shape{n}", h_shape, dict(n=n)) for n in (range(1, 6) if tier == "quick" else range(1, 9))], ("missing", h_missing), ("atoms", h_atoms),
            ("header", h_header), ("exp", h_exp), ("step", h_step), ("mixed", h_mixed), ("lines", h_lines), ("partial", h_partial)]
