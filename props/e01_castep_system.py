"""E01: the description of the system in a .castep file."""
from props.castep import C, E01, Many, check, kpoint_lines, parse
from props.castep_file import repeated

BOUNDS = ("one section per file; counts of rows, groups or steps from 0-1 to 3 (11 for k-points), numbers with every digit and "
          "sign symbolic and widths up to those of the columns, words of up to 8 symbolic letters; every combination of up to three "
          "(thorough: four) departures from the plain form of a section (its options: absent lines, tags, labels, other units, "
          "other widths); twelve (thorough: 40) of one kind of row, table or step, one kind at a time")
OUTSIDE = ("memory-estimate rows whose label holds a comma or a dot; the third coordinate of listed k-points, and the string of "
           "a pseudopotential report (both known findings, E01-kpoint-third and D03-report-detail); sections other than those "
           "listed under cases; the layouts are those of the test suite's examples and data files")
ASSUMPTIONS = []


def h(f, many=False):
    def run(S):
        text, want = f(Many(S) if many else C(S))
        check(S, text, want, f.__name__)
    return run


def kpoint_third(S):
    text, pts = kpoint_lines(C(S, 0), 2, False)
    got = parse(S, text)
    S.eq([p["qpt"] for p in got[0]["k-points"]["points"]], [p["qpt"] for p in pts], "third coordinate")


def cases(tier):
    return [(n, h(f)) for n, f in E01.items()] + [("many_" + n, h(f, True)) for n, f in E01.items()] + [("kpoint_third", kpoint_third)] + [("repeated", repeated([n for n in E01 if n != "build_info"]))]
