"""E03: forces, stresses, populations and bonds in a .castep file."""
from props.castep import C, Many, check
from props.castep_atoms import E03
from props.castep_file import repeated

BOUNDS = ("one section per file: 1-3 tables of forces (five kinds) or 1-2 stress tensors (three kinds), 1-3 atoms or bonds per table, "
          "atoms with and without tag and label and with indices of up to 4 digits, values with every digit and sign symbolic and up "
          "to the columns' widths, marked (cons'd), (mixed) or not, populations with and without spin; every combination of up to three "
          "(thorough: four) departures from the plain form; twelve (thorough: 40) of one kind of row, table or step, one kind at a time")
OUTSIDE = ("an atom that has two orbitals of the same name; the spin columns some versions add to the Hirshfeld table; layouts other than "
           "those of the test suite's examples and data files")
ASSUMPTIONS = []


def h(f, many=False):
    def run(S):
        text, want = f(Many(S) if many else C(S))
        check(S, text, want, f.__name__)
    return run


def cases(tier):
    return [(n, h(f)) for n, f in E03.items()] + [("many_" + n, h(f, True)) for n, f in E03.items()] + [("repeated", repeated([n for n in E03]))]
