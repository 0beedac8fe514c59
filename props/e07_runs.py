"""E07: sections and runs of a .castep file do not interfere."""
from props.castep import C, clean
from props.castep_file import ORDER, SECTIONS, after

from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file

BOUNDS = ("every ordered pair of 65 sections (each with itself too), directly after one another or with an empty line or lines of no section "
          "between them; three of the same section; a file of all sections in its usual order, reversed, and turned round at every sixth section; "
          "one to four runs, each with a different part of all sections, with and without a first line of build information; digits and signs "
          "symbolic, plain forms of each section; each section in two runs of one file, with one (thorough: two) departures from the plain form "
          "in one of them")
OUTSIDE = "sections cut short; SCF cycles or energies around a finite basis-set correction, which takes their place; sections printed within one another; unrecognised lines that hold a section's opening words"
ASSUMPTIONS = []

NAMES = [n for n in ORDER if n != "bsc"]
# Lines that belong to no section.
OTHER = ["", "\n", "NUMBERS", " Calculation parallelised over 4 processes.\n", "   \n \n", " Writing model to N2.check\n\n",
         " Data is distributed by k-point(2-way)\n", "  *** There is something here ***\n\n"]


def other(c, k):
    if OTHER[k] == "NUMBERS":
        return "   " + "  ".join(c.rs(3, 2, 4)) + "   " + c.d(3) + "\n"
    return OTHER[k]


def put(c, names, gaps):
    text, want = "", {}
    for n, g in zip(names, gaps):
        t, w = SECTIONS[n](c)
        text = text + t + g
        want = after(want, n, w)
    return text, want


def judge(S, text, wants, msg):
    got = parse_castep_file(S.file(text), Filters.FULL | Filters.TEST_EXTRA_DATA)
    S.check(len(got) == len(wants), f"{msg}: {len(wants)} runs, got {len(got)}")
    for g, w in zip(got, wants):
        S.eq(clean(dict(g)), clean(w), msg)


def pair(a):
    def run(S):
        c = C(S, 0)
        b = S.choice(*[n for n in NAMES if n != "build_info"])
        k = S.choice(*range(len(OTHER))) if S.thorough else len(a + b) % len(OTHER)
        text, want = put(c, [a, b], [other(c, k), "\n"])
        judge(S, text, [want], f"{a} + {b}")
    return run


# What a basis-set correction replaces rather than continues.
BSC = ("build_info", "bsc", "scf", "energies", "solvation_energy", "geom", "final", "md")


def bsc(S):
    """A finite basis-set correction before and after what is not its own."""
    c = C(S, 0)
    b = S.choice(*[n for n in ORDER if n not in BSC])
    names = S.choice([b, "bsc"], ["bsc", b])
    text, want = put(c, names, ["\n", "\n"])
    judge(S, text, [want], " + ".join(names))


def bsc_scf(S):
    """SCF cycles and energies printed before a basis-set correction."""
    c = C(S, 0)
    a, aw = SECTIONS["scf"](c)
    e, ew = SECTIONS["energies"](c)
    b, bw = SECTIONS["bsc"](c)
    got = parse_castep_file(S.file(a + e + b), Filters.FULL)[0]
    S.check(len(got["scf"]) > len(bw["scf"]) and len(got["energies"]["final_energy"]) > 1, "what precedes a basis-set correction is kept")


def thrice(S):
    a = S.choice(*[n for n in NAMES if n != "build_info"])
    c = C(S, 0)
    gap = other(c, len(a) % len(OTHER))
    text, want = put(c, [a] * 3, [gap] * 3)
    judge(S, text, [want], f"three of {a}")


def between(S):
    """Each kind of line of no section, on its own and between sections."""
    c = C(S, 0)
    k = S.choice(*range(len(OTHER)))
    a, b = S.choice(("cell", "positions"), ("scf", "energies"), ("forces", "stress"), ("mulliken", "bonds"), ("memory", "warning_line"))
    gap = other(c, k)
    text, want = put(c, [a, b], [gap, gap])
    judge(S, gap + text, [want], f"{a} + {b} and lines of no section")


def attached(S):
    """Another file's contents directly after the closing times."""
    c = C(S, 1)
    text, want = SECTIONS["finalisation"](c)
    text, want = text[:-1], after({}, "finalisation", want)
    t, w = SECTIONS["extra"](c)
    text, want = text + t, after(want, "extra", w)
    if S.flag():
        b = S.choice("build_info", "positions", "finalisation")
        t, w = SECTIONS[b](c)
        text = text + t + "\n"
        if b == "build_info":
            judge(S, text, [want, after({}, b, w)], "contents after the closing times, and another run")
            return
        want = after(want, b, w)
    judge(S, text, [want], "contents after the closing times")


def nothing(S):
    """A file of no section has no run."""
    c = C(S, 0)
    text = other(c, S.choice(*range(len(OTHER))))
    S.check(parse_castep_file(S.file(text), Filters.FULL) == [], "no section, no run")


def orders(S):
    names = [n for n in NAMES if n != "build_info"]
    k = S.choice(*range(0, len(names), 6), -1)
    names = names[::-1] if k == -1 else names[k:] + names[:k]
    text, want = put(C(S, 0), ["build_info", *names], ["\n"] * (len(names) + 1))
    judge(S, text, [want], "all sections in another order")


def runs(S):
    n = S.choice(2, 1, 3, 4)
    names = [x for x in NAMES if x != "build_info"]
    first = S.choice(0, 16, 32, 48)
    c = C(S, 0)
    text, wants = "", []
    for k in range(n):
        part = names[(first + 16 * k) % len(names):][:16]
        head = ["build_info"] if k or S.choice(True, False) else []
        t, w = put(c, head + part, ["\n"] * 17)
        text = text + t
        wants.append(w)
    judge(S, text, wants, f"{n} runs")


def again(a):
    """A section in two runs, one of them in another form."""
    def run(S):
        form, plain = C(S, 2 if S.thorough and a != "scf" else 1), C(S, 0)
        text, wants = "", []
        for c in S.choice((form, plain), (plain, form)):
            t, w = put(c, ["build_info", a], ["\n", "\n"]) if c is plain else put_after(plain, c, a)
            text = text + t
            wants.append(w)
        judge(S, text, wants, f"{a} in two runs")
    return run


def put_after(plain, c, a):
    t, w = SECTIONS["build_info"](plain)
    u, x = SECTIONS[a](c)
    return t + "\n" + u + "\n", after(after({}, "build_info", w), a, x)


def empty_runs(S):
    """Runs with nothing but their build information, and one after another."""
    c = C(S, 0)
    parts = S.choice(["", ""], ["", "cell"], ["cell", ""], ["energies", "", "energies"])
    text, wants = "", []
    for p in parts:
        t, w = put(c, ["build_info", p] if p else ["build_info"], ["\n", "\n"])
        text = text + t
        wants.append(w)
    judge(S, text, wants, "runs of little")


def cases(tier):
    return ([("after_" + a, pair(a)) for a in NAMES] + [("again_" + a, again(a)) for a in NAMES if a != "build_info"] +
            [("bsc", bsc), ("bsc_scf", bsc_scf), ("thrice", thrice), ("between", between), ("nothing", nothing), ("attached", attached), ("orders", orders), ("runs", runs), ("empty_runs", empty_runs)])
