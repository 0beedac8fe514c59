"""F06: every result is its own."""
from castep_outputs import parse_single
from castep_outputs.bin_parsers import PARSERS as BIN_PARSERS
from castep_outputs.parsers import PARSERS
from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
from castep_outputs.tools.md_geom_parser import MDGeomParser

from props import d03_pspot
from props.castep import C
from props.castep_file import ORDER, SECTIONS
from props.castep_steps import E05
from props.samples import SOURCES, capture, sources

BOUNDS = ("a file of each of the 22 other kinds and a .castep file of each of 70 sections and runs, in every plain form and with one (thorough: two) "
          "departures from it, and another file of the same kind, parsed before, between and after; every container of a result emptied by "
          "the caller before the same is parsed again; trajectory frames read again after that; .castep files read with five sets of filters "
          "in turn; digits and signs symbolic")
OUTSIDE = "parsers running at the same time in several threads; containers shared between two places of one result (aliases are meant to be)"
ASSUMPTIONS = []

ALL = {**PARSERS, **BIN_PARSERS}
PSPOTS = [d03_pspot.h_several, d03_pspot.h_betas, d03_pspot.h_flags]


def keep(x):
    """The same containers anew, the same values."""
    if isinstance(x, dict):
        return {k: keep(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)([keep(v) for v in x]) if type(x) in (list, tuple) else x
    return x


def wreck(x):
    """Everything a caller may do to a result."""
    if isinstance(x, dict):
        for v in list(x.values()):
            wreck(v)
        x.clear()
        x["mine"] = 1
    elif isinstance(x, (list, tuple)):
        for v in list(x):
            wreck(v)
        if isinstance(x, list):
            x.clear()
            x.append("mine")


def independent(S, parse, a, b, msg):
    """parse(a) is the same whatever was parsed and done before, and stays as it was."""
    first = parse(a)
    want = keep(first)
    second = parse(b)
    other = keep(second)
    S.eq(first, want, f"{msg}: a result keeps as other files are parsed")
    wreck(first)
    S.eq(second, other, f"{msg}: a result keeps as another is changed")
    wreck(second)
    S.eq(parse(a), want, f"{msg}: the same file again, after another and its result was changed")
    S.eq(parse(b), other, f"{msg}: the other file again")


def reader(S, kind):
    make = S.binfile if kind in BIN_PARSERS else S.file
    return lambda text: ALL[kind](make(text))


def pair(S, kind, one, two, n):
    order = S.choice(0, 1)
    texts = [one(n), two(0)]
    if any(t is None for t in texts):
        S.check(True, "nothing to parse")
        return
    independent(S, reader(S, kind), texts[order], texts[1 - order], kind)


def file_of(kind, k):
    def run(S):
        src = sources(kind)
        other = src[S.choice(*range(len(src)))] if len(src) < 4 else src[(k + S.choice(0, 1)) % len(src)]
        pair(S, kind, lambda n: capture(S, src[k][0], n, **src[k][1]), lambda n: capture(S, other[0], n, **other[1]), 2 if S.thorough else 1)
    return run


def pspots(kind):
    def run(S):
        if kind == "castep":
            one = two = d03_pspot.h_castep
        else:
            one, two = S.choice((PSPOTS[0], PSPOTS[1]), (PSPOTS[1], PSPOTS[2]), (PSPOTS[2], PSPOTS[0]))
        pair(S, kind, lambda n: capture(S, one, n), lambda n: capture(S, two, n), 2 if S.thorough else 1)
    return run


def section(name):
    f = E05.get(name) or SECTIONS[name]

    def run(S):
        few = name in ("md", "geom", "scf") and not S.thorough
        pair(S, "castep", lambda n: f(C(S, n))[0], lambda n: f(C(S, n))[0], 0 if few else 2 if S.thorough else 1)
    return run


def part(S, names):
    text = ""
    for n in names:
        text = text + SECTIONS[n](C(S, 0))[0] + "\n"
    return text


def runs(i):
    def run(S):
        independent(S, reader(S, "castep"), part(S, ORDER[i:i + 8]), part(S, ORDER[(i + 4) % len(ORDER):][:8]), "castep")
    return run


def filters(S):
    """One file read with other filters in between."""
    text = part(S, ["build_info", "options", "cell", "positions", "scf", "energies", "forces", "stress", "mulliken", "bonds"])
    a, b = S.choice((Filters.FULL, Filters.HIGH), (Filters.HIGH, Filters.FULL), (Filters.LOW, Filters.MEDIUM), (Filters.MEDIUM, Filters.FULL), (Filters.NONE, Filters.FULL))
    turns = iter([a, b, a, b])
    independent(S, lambda t: parse_castep_file(S.file(t), next(turns)), text, text, "castep with filters")


def formats(S):
    """Through parse_single, as it is and for JSON."""
    kind = S.choice("md", "bands", "magres", "cell", "xrd_sf", "elastic")
    fn, kw = sources(kind)[0]
    a, b = capture(S, fn, 0, **kw), capture(S, fn, 0, **kw)
    turns = iter([S.choice("json", "print"), S.choice("json", "print")] * 2)
    independent(S, lambda t: parse_single(S.file(t), kind, next(turns)), a, b, f"{kind} by parse_single")


def frames(S):
    """Frames of a trajectory, read by two readers in turn."""
    fn, kw = sources("md")[0]
    a, b = "".join(capture(S, fn, 0, **kw)), "".join(capture(S, fn, 0, **kw))
    S.fs({"a.md": a, "b.md": b})
    p, q = MDGeomParser("a.md"), MDGeomParser("b.md")
    i, j = S.choice(0, 1), S.choice(0, -1)
    turns = iter([(p, i), (q, j)] * 2)

    def frame(_):
        r, n = next(turns)
        return r[n]
    independent(S, frame, a, b, "frames")


def cases(tier):
    return ([(f"file_{k}_{i}", file_of(k, i)) for k, v in SOURCES.items() for i in range(len(v[1]))] +
            [("pspot_" + k, pspots(k)) for k in ("cell", "castep")] +
            [("castep_" + n, section(n)) for n in dict.fromkeys([*SECTIONS, *E05])] +
            [("castep_from_" + ORDER[i], runs(i)) for i in range(0, len(ORDER), 8)] +
            [("filters", filters), ("formats", formats), ("frames", frames)])
