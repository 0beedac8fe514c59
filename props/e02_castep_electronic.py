"""E02: the electronic minimisation in a .castep file."""
from props.castep import C, Many, check
from props.castep_scf import E02, bsc
from props.castep_file import repeated

BOUNDS = ("one section per file: 1-2 SCF tables of 1-4 rows (with or without a Fermi energy, density residual, constraint or dipole "
          "energy, debug report with 1-3 bands and 1-3 passes), 2, 3 or 10 cut-offs of a finite basis correction, 0-2 sets of final "
          "energies, 1-2 occupancy tables of 0-3 bands, 1-2 line minimisations of 1-5 steps, solvation and spin densities; every "
          "digit and sign symbolic; every combination of up to three (thorough: four; finite basis correction: one, two) departures "
          "from the plain form; twelve (thorough: 40) of one kind of row, table or step, one kind at a time")
OUTSIDE = ("occupancy tables of several k-points before one closing line; the DeltaSCF report (E04); SCF tables without the closing line; "
           "layouts other than those of the test suite's examples and data files")
ASSUMPTIONS = []


def h(f, many=False):
    def run(S):
        text, want = f(Many(S) if many else C(S, 1 if f is bsc and not S.thorough else None))
        check(S, text, want, f.__name__)
    return run


def cases(tier):
    return [(n, h(f)) for n, f in E02.items()] + [("many_" + n, h(f, True)) for n, f in E02.items()] + [("repeated", repeated([n for n in E02 if n != "bsc"]))]
