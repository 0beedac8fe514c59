"""E05: molecular dynamics, geometry optimisation and transition-state steps in a .castep file."""
from props.castep import C, Many, E01, check, parse
from props.castep_steps import E05, contents, own_image, pad

from castep_outputs.parsers.castep_file_parser import Filters

BOUNDS = ("1-3 molecular-dynamics steps with or without the step before the first, 1-3 geometry iterations of each of six minimisers, one "
          "iteration with two trial structures, reactant and product of 1-3 atoms, constraint tables; each step with different sets of "
          "the sections (cell, positions, SCF cycles, energies, forces, stress, MD data, tables of the minimiser) and values before and "
          "after the steps, sections of one kind both before the first step and within it; every digit and sign symbolic; every combination of up to three (steps of MD and geometry: one; thorough: four and "
          "two) departures from the plain form; twelve (thorough: 40) of one kind of row, table or step, one kind at a time")
OUTSIDE = ("path-integral dynamics; unfinished steps; sections in a step other than those named; the transition-state search's own tables, "
           "which the parser does not read")
ASSUMPTIONS = []


def drop_pressure(x):
    """The MD pressure has its own case; an iteration without trial step may or may not have an empty entry for it."""
    if isinstance(x, dict):
        return {k: drop_pressure(v) for k, v in x.items() if not (isinstance(k, str) and ("pressure" in k or (k == "geom_opt" and not v)))}
    return [drop_pressure(v) for v in x] if isinstance(x, list) else x


def h(f, many=False):
    def run(S):
        text, want = f(Many(S) if many else C(S, (2 if S.thorough else 1) if f.__name__ in ("md", "geom") else None))
        S.eq(drop_pressure(parse(S, text)), [want], f.__name__)
    return run


def pressure(S):
    text, want = E05["md_data"](C(S, 0))
    got = parse(S, text)
    S.check(len(got) == 1 and len(got[0]) == len(want) + 1, "one entry per row of the MD data, the pressure's included")


def memory(S):
    c = C(S, 0)
    a, aw = E01["memory"](c)
    b, bw = contents(c, ("memory", "md_data"))
    text = a + "\n" + "=" * 80 + "\n Starting MD iteration          1 ...\n" + "=" * 80 + "\n\n" + b + "\n ... finished MD iteration          1\n"
    got = parse(S, text)
    S.eq(got[0]["memory_estimate"], [*aw["memory_estimate"], *bw["memory_estimate"]], "memory estimates before and in the first step")


def image(S):
    text, n = own_image(C(S, 0))
    S.check(len(parse(S, text)[0]["internal_constraints"][0]["constraints"]) == n, "both ends of a bond to an atom's own image")


def default_filters(S):
    """Steps without SCF cycles, which the default leaves out."""
    text, want = E05[S.choice("md", "geom")](C(S, 0))
    for steps in (want.get("md", []), want.get("geom_opt", {}).get("iterations", [])):
        for s in steps:
            s.pop("scf", None)
    want.pop("scf", None)
    S.eq(drop_pressure(parse(S, text, Filters.HIGH)), [want], "default filters")


def cases(tier):
    return [(n, h(f)) for n, f in E05.items()] + [("many_" + n, h(f, True)) for n, f in E05.items()] + [("default_filters", default_filters), ("pressure", pressure), ("memory", memory), ("own_image", image)]
