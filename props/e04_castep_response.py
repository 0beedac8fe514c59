"""E04: phonons, response properties, magnetic resonance, spectroscopy in a .castep file."""
from props.castep import C, Many, check, parse
from props.castep_response import E04, FORMS
from props.castep_file import repeated

BOUNDS = ("one section per file, of each of 24 kinds: 1-3 q-points, k-points, modes, atoms, states or temperatures (1-2 atoms' dynamical "
          "matrix), the same q-point repeated or not, every optional column and line present and absent, values with every digit and sign "
          "symbolic and up to the columns' widths; every combination of up to three (thorough: four) departures from the plain form; twelve (thorough: 40) of one kind of row, table or step, one kind at a time")
OUTSIDE = ("notes and warnings inside a table of characters; the rows of a J-coupling table without values; atoms with labels; layouts other "
           "than those of the test suite's examples and data files")
ASSUMPTIONS = ["products and sums of printed values (traces and invariants of Raman tensors) are compared as exact reals"]


def h(f, many=False):
    def run(S):
        text, want = f(Many(S) if many else C(S))
        check(S, text, want, f.__name__)
    return run


def raman(S):
    """Traces and invariants are computed: compared up to rounding."""
    text, want = E04["raman"](C(S))
    got, modes = parse(S, text), want["raman"][0]
    S.check(len(got) == 1 and list(got[0]) == ["raman"] and len(got[0]["raman"]) == 1, "one Raman table")
    got = got[0]["raman"][0]
    S.check(len(got) == len(modes), "number of modes")
    for g, w in zip(got, modes):
        S.eq(sorted(g), sorted(w), "entries of a mode")
        S.eq(g["tensor"], w["tensor"], "tensor")
        S.eq(g["depolarisation"], w["depolarisation"], "depolarisation")
        for k in ("trace", "ii"):
            d = g[k] - w[k]  # the terms are below 1e8, so that rounding stays below the smaller bound
            S.check(-1e-4 < d and d < 1e-4 if S.symbolic else abs(d) < 1e-6, k)


def phonons(S):
    form = S.choice(*FORMS)
    text, want = E04["phonons"](C(S, 2 if S.thorough else 1), form)
    check(S, text, want, "phonons")


def berry_verbose(S):
    """Electronic, ionic and total polarisations in other units: see berry_units."""
    text, want = E04["berry_verbose"](C(S))
    got = parse(S, text)
    S.check(len(got) == 1 and list(got[0]) == ["berry_phase"], "one section")
    for d in (got[0]["berry_phase"], want["berry_phase"]):
        for k in ("phase", "val", "units"):
            d["polarisation"].pop(k, None)
    S.eq(got, [want], "berry_verbose")


def berry_units(S):
    text, want = E04["berry_verbose"](C(S, 0))
    check(S, text, want, "polarisation as phase and in e bohr")


OWN = {"phonons": phonons, "raman": raman, "berry_verbose": berry_verbose, "berry_units": berry_units}


def cases(tier):
    return [(n, h(f)) for n, f in E04.items() if n not in OWN] + list(OWN.items()) + [
        ("many_" + n, h(f, True)) for n, f in E04.items() if n not in ("raman", "berry", "berry_verbose", "elastic_matrix", "permittivity")] + [("repeated", repeated([n for n in E04]))]
