"""A08: a table whose parts disagree is reported, never passed off as a result."""
from props.a04_truncation import num
from props.b04_epme_bin import h_mismatch
from props.c05_phonons import header, qpt
from props.c06_grids_tables import HEAD
from props.common import digits, pad, real, uint

from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
from castep_outputs.parsers.cell_param_file_parser import parse_cell_file
from castep_outputs.parsers.parse_fmt_files import parse_elf_fmt_file
from castep_outputs.parsers.phonon_file_parser import parse_phonon_file
from castep_outputs.parsers.xrd_sf_file_parser import parse_xrd_sf_file

BOUNDS = (".castep: dynamical matrices of 1-2 atoms with one row or one value missing or too many in either part; up to 3 occupancy "
          "rows one of which has 2, 4 or 5 numbers; two-body potentials with 1..3 labels and another number of values, in any of 3 "
          "rows and either group; Mulliken populations of up to 3 atoms, one without its second spin; constraint tables with an unknown "
          "kind; .phonon: 1..3 branches, 1..2 ions, 1..2 q-points with up to two rows too many or too few; grid rows with one value too "
          "many or too few; structure factors with a row of up to four values too few; symmetry operations of 1..9 rows in all; epme_bin: counts that disagree; every printed number symbolic")
OUTSIDE = "kinds of table for which the code declares no consistency rule"
ASSUMPTIONS = []


def castep(S, text):
    return lambda: parse_castep_file(S.file(text), Filters.FULL)


def judge(S, good, text, what):
    if good:
        S.check(len(castep(S, text)()) == 1, f"consistent {what}")
    else:
        S.raises(Exception, castep(S, text), f"inconsistent {what}")


def h_dynamical(S):
    n = 3 * S.choice(1, 2)
    rows = {p: [[real(S, 1, 2) for _ in range(n)] for _ in range(n)] for p in ("real part", "imaginary part")}
    kind = S.choice("ok", "row", "extra", "value")
    bad = rows[S.choice(*rows)]
    k = S.choice(*range(n))
    if kind == "row":
        del bad[k]
    elif kind == "extra":
        bad.insert(k, list(bad[k]))
    elif kind == "value":
        bad[k] = bad[k][:-1]
    t = "  " + "-" * 114 + "\n            Dynamical matrix\n"
    for p, rr in rows.items():
        t = t + " Ion XYZ        " + p + "  ((cm-1)**2)\n"
        for i, r in enumerate(rr):
            t = t + pad(str(i // 3 + 1), 4) + pad(str(i % 3 + 1), 4) + "".join([pad(x, 12) for x in r]) + "\n"
    judge(S, kind == "ok", t + "  " + "-" * 114 + "\n", "dynamical matrix")


def h_occupancies(S):
    bar = "+--------+-------------------+----------------+                   <- occ\n"
    n = S.choice(1, 2, 3)
    k = S.choice(*range(n))
    width = S.choice(3, 2, 4, 5)
    text = bar + "|  Band  |   Eigenvalue      |    Occupancy   |                   <- occ\n" + bar
    for i in range(n):
        v = [uint(S, 2), *[real(S, 1, 3) for _ in range((width if i == k else 3) - 1)]]
        text = text + "| " + "  | ".join(v) + "  |           <- occ\n"
    judge(S, width == 3, text + bar + "Have a nice day.\n", "occupancies")


PAIRS = ("H -H ", "H -He", "He-Si")


def h_pairs(S):
    st = "   " + "*" * 68 + "\n"
    text = "   ************************     PairParams     ************************\n   *" + " " * 66 + "*\n"
    text = text + "   *                               Two Body                           *\n"
    groups = S.choice(1, 2)
    bad = S.choice(*range(groups))
    row = S.choice(0, 1)
    n = S.choice(1, 2, 3)
    have = S.choice(1, 2, 3)
    for g in range(groups):
        labels = PAIRS[:n] if g == bad else ("O -O ", "O -Mn")
        text = text + "   *         " + "       ".join(labels) + "                    *\n"
        for i, p in enumerate("rs"):
            v = [real(S, 2, 3, sg="") for _ in range(have if (g, i) == (bad, row) else len(labels))]
            text = text + "   *    " + p + "     " + "    ".join(v) + "   A        * <--   LJ\n"
    judge(S, have == n, text + st + "\n", "pair potentials")


def h_spins(S):
    head = ["     Atomic Populations (Mulliken)\n", "     -----------------------------\n",
            "Species          Ion Spin      s       p       d       f      Total   Charge(e)   Spin(hbar/2)\n", "=" * 90 + "\n"]
    n = S.choice(1, 2, 3)
    k = S.choice(*range(n))
    kind = S.choice("ok", "down", "up")
    t = ""
    for i in range(n):
        v = [num(S) for _ in range(6)]
        if i != k or kind != "up":
            t = t + "  Si              " + str(i + 1) + "   up:     " + "  ".join(v) + "  " + v[0] + "\n"
        if i != k or kind != "down":
            t = t + "                  " + str(i + 1) + "   dn:     " + "  ".join(v[:5]) + "\n"
    text = "".join(head) + t + "=" * 90 + "\n"
    if kind == "up":  # an orphan second line belongs to no atom
        got = castep(S, text)()
        S.eq(len(got[0].get("mulliken_popn", {})) if got else 0, n - 1, "atoms with both spins")
        return
    judge(S, kind == "ok", text, "populations")


def h_constraints(S):
    kinds = ("Bond", "Angle", "Torsion")
    n = S.choice(1, 2)
    k = S.choice(*range(n))
    kind = S.choice(*kinds, "Plane", "Torsion2")
    t = " -----------------------------\n    INTERNAL CONSTRAINTS\n -----------------------------\n    #  Type   Target   Current   Definition\n"
    for i in range(n):
        t = t + "    " + str(i + 1) + "  " + (kind if i == k else "Bond") + "  " + real(S, 1, 3, sg="") + "  " + real(S, 1, 3, sg="") + \
            "  1 (  0  0  0)  2 (  0  0  " + digits(S, 1) + ")\n"
    judge(S, kind in kinds, t + "\n\n", "constraints")


def h_phonon(S, part):
    br, ions, nq = S.choice(1, 2, 3), S.choice(1, 2), S.choice(1, 2)
    bad = S.choice(*range(nq))
    off = S.choice(0, -1, 1, 2)
    if part == "vectors" and off > 0 and br * ions == 1:
        return  # the one row is the table's last: what follows it is outside the table
    text, _ = header(S, ions, (("ions", ions), ("branches", br), ("wavevectors", nq)))
    for q in range(nq):
        t, _ = qpt(S, q + 1, br, ions)
        t = list(t)
        # title, one row per branch, two headings, one row per branch and ion
        cut = len(t) - br * ions
        vals, heads, vecs = t[1:1 + br], t[1 + br:cut], t[cut:]
        if q == bad:
            rows = vals if part == "values" else vecs
            new = rows[:off] if off < 0 else [rows[0]] * off + rows
            vals, vecs = (new, vecs) if part == "values" else (vals, new)
        text = [*text, t[0], *vals, *heads, *vecs]
    if off == 0:
        S.eq(len(parse_phonon_file(S.file("".join(text)))["qpts"]), nq, "consistent file")
    else:
        S.raises(Exception, lambda: parse_phonon_file(S.file("".join(text))), f"{off} rows of {part}")


def h_grid(S):
    n = S.choice(1, 2, 3)
    k = S.choice(*range(n))
    width = S.choice(2, 1, 3)
    text = "".join(HEAD) + ' END header: data is "<a b c> chi_alpha chi_beta"\n\n'
    for i in range(n):
        v = [real(S, 1, 3) for _ in range(width if i == k else 2)]
        text = text + "     1     1     " + str(i + 1) + "  " + "  ".join(v) + "\n"
    if width == 2:
        S.eq(len(parse_elf_fmt_file(S.file(text))["chi_alpha"]), n, "consistent rows")
    else:
        S.raises(Exception, lambda: parse_elf_fmt_file(S.file(text)), "row of the wrong length")


def h_symmetry(S):
    """Symmetry operations that are not four rows each."""
    n = S.choice(4, 8, 1, 2, 3, 5, 6, 7, 9)
    rows = "".join("  " + "  ".join(real(S, 1, 2) for _ in range(3)) + "\n" for _ in range(n))
    text = "%block symmetry_ops\n" + rows + "%endblock symmetry_ops\n"
    if n % 4 == 0:
        S.eq(len(parse_cell_file(S.file(text))[0]["symmetry_ops"]), n // 4, "whole operations")
    else:
        S.raises(Exception, lambda: parse_cell_file(S.file(text)), "rows of an operation missing")


def h_structure(S):
    """A row of structure factors lacks values, among rows that do not."""
    n = S.choice(1, 2, 3)
    k = S.choice(*range(n))
    width = S.choice(4, 3, 2, 0)
    text = "   h   k   l   Re(F_IAM)   Im(F_IAM)   Re(F_PP)   Im(F_PP)\n"
    for i in range(n):
        v = [real(S, 1, 3) for _ in range(width if i == k else 4)]
        text = text + "   " + str(i) + "   0   " + digits(S, 1) + "  " + "  ".join(v) + "\n"
    if width == 4:
        S.eq(len(parse_xrd_sf_file(S.file(text))["f_iam"]), n, "consistent rows")
    else:
        S.raises(Exception, lambda: parse_xrd_sf_file(S.file(text)), "row that lacks values")


def cases(tier):
    return [("dynamical", h_dynamical), ("occupancies", h_occupancies), ("pairs", h_pairs), ("spins", h_spins), ("constraints", h_constraints),
            ("phonon_values", h_phonon, dict(part="values")), ("phonon_vectors", h_phonon, dict(part="vectors")), ("grid", h_grid), ("structure", h_structure), ("symmetry", h_symmetry),
            ("epme_bin", h_mismatch)]
