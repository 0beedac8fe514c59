"""A04: a section cut short by end of file is reported, never passed off as complete."""
from props.castep import C
from props.castep_file import SECTIONS
from props.common import be_i32, digits, real, rec

from castep_outputs.bin_parsers.cst_esp_file_parser import parse_cst_esp_file
from castep_outputs.bin_parsers.epme_bin_parser import parse_epme_bin_file
from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader
from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
from castep_outputs.parsers.cell_param_file_parser import parse_cell_file
from castep_outputs.parsers.efield_file_parser import parse_efield_file
from castep_outputs.parsers.elastic_file_parser import parse_elastic_file
from castep_outputs.parsers.magres_file_parser import parse_magres_file
from castep_outputs.parsers.md_geom_file_parser import parse_md_file
from castep_outputs.parsers.phonon_dos_file_parser import parse_phonon_dos_file
from castep_outputs.parsers.phonon_file_parser import parse_phonon_file
from castep_outputs.parsers.tddft_file_parser import parse_tddft_file
from castep_outputs.utilities.filewrapper import Block, FileWrapper

BOUNDS = ("blocks of up to 5 lines (thorough 7) with 1..3 end lines cut after every line, from files, wrapped files and "
          "blocks; line requests of up to 5; binary files of up to 3 records cut after every byte; every delimited "
          "section of 9 text formats and 58 .castep sections, in their plain form (thorough: and after another section or themselves), cut after every one of its lines; values symbolic")
OUTSIDE = ("formats that declare end of file an acceptable end (trajectory frames, transition-state images, the .castep "
           "title section); truncation between sections, which leaves a complete shorter file")
ASSUMPTIONS = []


def source(S, kind, ls):
    if kind == "block":
        return Block.from_iterable(ls)
    f = S.file("".join(ls) if ls else "")
    return FileWrapper(f) if kind == "file" else iter(f)


def h_from_re(S):
    n_end = S.choice(1, 2, 3)
    ls = ["BEGIN\n"]
    for i in range(n_end):
        ls += [S.chars(2, "xyz 01") + "\n" for _ in range(S.choice(0, 1, 2) if S.thorough else S.choice(0, 1))] + ["-- END\n"]
    cut = S.count(1, len(ls) - 1)
    src = source(S, S.choice("file", "raw", "block"), ls[:cut])
    if S.flag():
        S.raises(OSError, lambda: Block.from_re(next(src), src, "^BEGIN", "END$", n_end=n_end), "cut block")
    else:
        b = Block.from_re(next(src), src, "^BEGIN", "END$", n_end=n_end, eof_possible=True)
        S.eq(b.aslist(), ls[:cut], "every line there was")


def h_get_lines(S):
    n = S.count(1, 5)
    have = S.count(0, n - 1)
    ls = [S.chars((1, 3, 0)[i % 3], "print") + "\n" for i in range(have)]
    src = source(S, S.choice("file", "raw", "block"), ls)
    if S.flag():
        S.raises(OSError, lambda: Block.get_lines(src, n), "too few lines")
    else:
        S.eq(Block.get_lines(src, n, eof_possible=True).aslist(), ls, "every line there was")


def cut_bytes(parts, k):
    out, n = [], 0
    for p in parts:
        if n + len(p) <= k:
            out.append(p)
        else:
            out.append(p[:k - n])
            break
        n += len(p)
    return out


def h_record(S, n):
    """A file cut inside a record: the records before it, then an error."""
    lens = [S.choice(1, 4, 6) if i == n - 1 else (5, 0, 3)[i] for i in range(n)]
    data = [S.bytes(k) for k in lens]
    parts = [p for d in data for p in rec(d)]
    start = sum(k + 8 for k in lens[:-1])
    cut = S.count(1, lens[-1] + 7)
    r = FortranBinaryReader(S.binfile(cut_bytes(parts, start + cut)))
    got = []
    for i in range(n - 1):
        got.append(next(r))
    S.eq(got, data[:-1], "whole records")
    S.raises(OSError, lambda: next(r), "record cut short")


def h_layout(S):
    """A layout with records missing is an error."""
    n = S.count(0, 2)
    parts = [p for i in range(n) for p in rec(S.bytes(4))]
    r = FortranBinaryReader(S.binfile(parts))
    S.raises(Exception, lambda: r.get_dtype_dict({"a": int, "b": int, "c": int}), "layout cut short")


def h_cycle(S):
    n = S.count(0, 3)
    parts = [p for i in range(n) for p in rec(S.bytes(4))]
    r = FortranBinaryReader(S.binfile(parts))
    layout = {"a": int, "b": int} if S.flag() else (int, int)
    S.raises(Exception, lambda: list(r.get_dtype_cycle(layout, n=2)), "cycle cut short")


def h_cst_esp(S):
    nz = S.choice(1, 2)
    parts = rec(be_i32(1)) + rec(be_i32(1), be_i32(1), be_i32(nz)) + rec(be_i32(1), be_i32(1), S.bytes(16 * nz))
    total = sum(len(p) for p in parts)
    cut = S.choice(2, 6, 11, 14, 18, 24, 31, 33, 38, 45, total - 9, total - 3, total - 1)
    S.assume(cut < total)
    S.raises(Exception, lambda: parse_cst_esp_file(S.binfile(cut_bytes(parts, cut))), "cst_esp cut short")


def h_cst_columns(S):
    """A potential that ends between two columns: only a whole grid (or two) is complete."""
    nx, ny = S.choice((1, 2), (2, 1), (2, 2), (3, 2))
    grids = S.choice(1, 2)
    n = S.count(0, nx * ny * grids - 1)
    S.assume(n == 0 or n != nx * ny)
    parts = rec(S.bytes(4)) + rec(be_i32(nx), be_i32(ny), be_i32(1))
    for k in range(n):
        x, y = divmod(k % (nx * ny), ny)
        parts += rec(be_i32(x + 1), be_i32(y + 1), S.bytes(16))
    S.raises(ValueError, lambda: parse_cst_esp_file(S.binfile(parts)), "columns missing")


def h_epme(S):
    parts = rec(b"EPME") + rec(be_i32(1)) + rec(b"HEADER") + rec(be_i32(1)) + rec(S.bytes(8))
    parts += rec(b"ATOM") + rec(be_i32(1)) + rec(S.bytes(72)) + rec(be_i32(1)) + rec(b"Si      ") + rec(S.bytes(24))
    parts += rec(b"KPOINT") + rec(be_i32(2)) + rec(be_i32(1))
    for k in range(2):
        parts += rec(be_i32(1)) + rec(be_i32(k + 1)) + rec(be_i32(1)) + rec(be_i32(1)) + rec(S.bytes(8)) + rec(S.bytes(24))
    parts += rec(b"EPCOUPLING") + rec(be_i32(1)) + rec(be_i32(1))
    parts += rec(be_i32(1)) + rec(be_i32(1)) + rec(be_i32(1)) + rec(S.bytes(8)) + rec(S.bytes(8)) + rec(S.bytes(16))
    parts += rec(S.bytes(16))
    total = sum(len(p) for p in parts)
    k = S.count(1, len(parts) - 1)                 # cut inside or at the end of a part
    cut = sum(len(p) for p in parts[:k]) - S.choice(0, 1)
    S.raises(Exception, lambda: parse_epme_bin_file(S.binfile(cut_bytes(parts, cut))), "epme_bin cut short")


# ------------------------------------------------------------------ text formats
def num(S):
    return real(S, 1, 3)


def text_cases(S, which):
    v = [num(S) for _ in range(6)]
    i = digits(S, 1)
    three = "  ".join(v[:3])
    head = [" BEGIN header\n", " Number of ions         2\n", " Unit cell vectors (A)\n", *[f"  {three}\n"] * 3,
            " Fractional Co-ordinates\n", f"     1  {three}   Si  28.0\n", " END header\n"]
    if which == "efield_header":
        return parse_efield_file, head
    if which == "efield_osc":
        return parse_efield_file, [" BEGIN Oscillator Strengths\n", f" 1 {'  '.join(v)}\n", f" 2 {'  '.join(v)}\n",
                                   " ---\n", " END Oscillator Strengths\n"]
    if which == "efield_perm":
        return parse_efield_file, [" BEGIN permittivity\n", f" {v[0]}  {'  '.join(v)}\n", f" {v[0]}  {'  '.join(v)}\n",
                                   " ---\n", " END permittivity\n"]
    if which == "phonon_header":
        return parse_phonon_file, head
    if which == "phonon_qpt":
        head = [head[0], " Number of ions         1\n", " Number of branches     2\n", *head[2:]]
        return parse_phonon_file, [*head, f"     q-pt=    1  {three}      1.0000\n", f"       1     {v[0]}\n",
                                   f"       2     {v[1]}\n", "                        Phonon Eigenvectors\n"], len(head)
    if which == "dos_header":
        return parse_phonon_dos_file, head
    if which == "dos_grad":
        return parse_phonon_dos_file, [" BEGIN GRADIENTS\n", f"     q-pt=    1  {three}      1.0000      {v[3]}\n",
                                       f"       1     {v[0]}  {v[1]}\n", " END GRADIENTS\n"]
    if which == "dos_dos":
        return parse_phonon_dos_file, [" BEGIN DOS   Freq (cm-1)  g(f)    Si\n", f"  {three}\n", f"  {three}\n", " X\n",
                                       " END DOS\n"]
    if which == "tddft_header":
        return parse_tddft_file, [" BEGIN header\n", " Number of spin states   1\n", " END header\n"]
    if which == "tddft_ks":
        return parse_tddft_file, [" BEGIN Characterisation of states as Kohn-Sham bands\n", f"  1  1 --> 2 {v[0]}\n",
                                  f" Total overlap for state  1  {v[0]}\n",
                                  " END Characterisation of states as Kohn-Sham bands\n"]
    if which == "tddft_spec":
        return parse_tddft_file, [" BEGIN TDDFT Spectroscopic Data\n", f"  1  {v[0]}  Singlet  Yes  {v[1]} {v[2]}\n",
                                  " END TDDFT Spectroscopic Data\n"]
    if which == "md_header":
        return parse_md_file, [" BEGIN header\n", "  \n", f" text {i}\n", " END header\n"]
    if which == "magres":
        return parse_magres_file, ["#$magres-abinitio-v1.0\n", "[atoms]\n", "units lattice Angstrom\n",
                                   f"atom H H 1 {three}\n", "[/atoms]\n"], 1
    if which == "elastic":
        return parse_elastic_file, [" BEGIN Elastic Constants (GPa)\n", *[f" {'  '.join(v)}\n"] * 3, " END\n"]
    if which == "elastic_strain":
        return parse_elastic_file, [" BEGIN Internal Strain (xx, yy) eV/A\n", f"  Si 1 x {'  '.join(v)}\n", " END\n"]
    if which == "cell":
        return parse_cell_file, ["%BLOCK LATTICE_CART\n", f" {three}\n", f" {three}\n", f" {three}\n",
                                 "%ENDBLOCK LATTICE_CART\n"]
    if which == "cell2":
        return parse_cell_file, ["fix_com : true\n", "%block positions_frac\n", f" Si {three}\n", f" H {three}\n",
                                 "%endblock positions_frac\n"], 1
    raise AssertionError(which)


TEXT = ("efield_header", "efield_osc", "efield_perm", "phonon_header", "phonon_qpt", "dos_header", "dos_grad", "dos_dos",
        "tddft_header", "tddft_ks", "tddft_spec", "md_header", "magres", "elastic", "elastic_strain", "cell", "cell2")


def h_text(S, which):
    parse, ls, *first = text_cases(S, which)
    first = first[0] if first else 0
    cut = S.count(first + 1, len(ls) - 1)
    S.raises(OSError, lambda: parse(S.file("".join(ls[:cut]))), f"{which} cut after line {cut}")


def castep_block(S, which):
    """Lines of one delimited .castep section: first line starts it, last line ends it."""
    v = [num(S) for _ in range(6)]
    t = "  ".join(v[:3])
    if which == "build":
        return [" Compiled for linux_x86_64 on 1\n", f" Version: {v[0]}\n", "\n"]
    if which == "memory":
        return [" +---------------- MEMORY AND SCRATCH DISK ESTIMATES PER PROCESS --------------+\n",
                "|                                                     Memory          Disk    |\n",
                f"| Model and support data                               {v[0]} MB         0.0 MB |\n",
                " +-----------------------------------------------------------------------------+\n"]
    if which == "params":
        return [" ******************************** Basis Set Parameters *******************************\n",
                f" plane wave basis set cut-off                   : {v[0]}   eV\n",
                " *******************************************************************************\n"]
    if which == "mass":
        return ["                           Mass of species in AMU\n", f"                                    H    {v[0]}\n", "\n"]
    if which == "scf":
        return ["SCF loop      Energy           Fermi           Energy gain       Timer   <-- SCF\n",
                "----------------------------------------------------------------------- <-- SCF\n",
                f"Initial  {v[0]}  {v[1]}                         {v[2]}  <-- SCF\n",
                f"      1  {'  '.join(v[:4])}  <-- SCF\n",
                "----------------------------------------------------------------------- <-- SCF\n"]
    if which == "cell":
        return ["                                      Unit Cell\n", "\n", "        Real Lattice(A)     Reciprocal\n",
                *[f"  {'  '.join(v)}\n"] * 3, "\n", f" a =  {v[0]}          alpha =  {v[1]}\n", "\n"]
    if which == "positions":
        return ["            x  Element         Atom        Fractional coordinates of atoms  x\n",
                f"            x  Si           1       {t}   x\n", f"            x  Si           2       {t}   x\n",
                "            xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\n"]
    if which == "forces":
        return [" ************************** Forces **************************\n",
                " *                                                          *\n", f" * H               1      {t} *\n",
                f" * H               2      {t} *\n", " ************************************************************\n"]
    if which == "stress":
        return [" *********** Symmetrised Stress Tensor ***********\n", f" *  x      {t}  *\n", f" *  y      {t}  *\n",
                f" *  z      {t}  *\n", " *************************************************\n"]
    if which == "kpoints":
        return ["                              k-Points For BZ Sampling\n",
                "                       MP grid size for SCF calculation is  1  1  1\n", "\n"]
    if which == "phonon":
        return ["  +                           Vibrational Frequencies                              +\n",
                f" +  q-pt=    1 ({t})     1.000000              +\n", f" +     1    {v[0]}      a                   +\n",
                " ==============================================================================\n"]
    if which == "mulliken":
        return ["     Atomic Populations (Mulliken)\n", "     -----------------------------\n",
                "Species          Ion     s      p      d      f     Total  Charge (e)\n", "=======================\n",
                f"  Si              1     {'  '.join(v)}\n", "=======================\n"]
    if which == "hirshfeld":
        return ["     Hirshfeld Analysis\n", "     ------------------\n", "Species   Ion     Hirshfeld Charge (e)\n",
                "======================================\n", f"  H        1                 {v[0]}\n",
                "======================================\n"]
    if which == "thermo":
        return [" Thermodynamics\n", " --------------\n",
                "      T(K)    E(eV)\n", " -----------------------\n", f"  {'  '.join(v[:5])}\n", " -----------------------\n"]
    if which == "elastic":
        return ["                      Elastic Constants Tensor (GPa)\n", "  ------------------\n", f"  {'  '.join(v)}\n",
                "  =============\n"]
    if which == "optics":
        return ["                Optical Permittivity (f->infinity)             DC Permittivity (f=0)\n",
                f"         {'  '.join(v)}\n", " ===============================================================================\n"]
    if which == "born":
        return ["  Born Effective Charges\n", "  ----------------------\n", f"  H 1   {t}\n", f"        {t}\n", f"        {t}\n",
                " ===================================================\n"]
    if which == "md_data":
        return ["           xxxxxxxxxxxxxxx\n", "           x                                               MD Data:     x\n",
                f"           x        time :   {v[0]}                   ps     x\n",
                "           xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\n"]
    if which == "md_step":
        return [" Starting MD iteration          1 ...\n", f"Final energy, E             =  {v[0]}     eV\n",
                " ... finished MD iteration          1\n"]
    if which == "geom_step":
        return ["================================================================================\n",
                " Starting BFGS iteration          1 ...\n",
                "================================================================================\n",
                f"Final energy, E             =  {v[0]}     eV\n", " Finished BFGS\n"]
    raise AssertionError(which)


CASTEP = ("build", "memory", "params", "mass", "scf", "cell", "positions", "forces", "stress", "kpoints", "phonon",
          "mulliken", "hirshfeld", "thermo", "elastic", "optics", "born", "md_data", "md_step", "geom_step")
LEAD = {"md_data": 1, "geom_step": 1}


def h_castep(S, which):
    ls = castep_block(S, which)
    first = LEAD.get(which, 0)
    pre = ["Final energy, E             =  -1.0     eV\n", "\n"] if S.flag() else []
    cut = S.count(first + 1, len(ls) - 1)
    S.raises(OSError, lambda: parse_castep_file(S.file("".join(pre + ls[:cut]))), f"{which} cut after line {cut}")


# Lines before a section's first and after its last, and the lines between the parts of a section of several, where 1 and 0 and none are not right.
AROUND = {"positions": (5, 0, ()), "symmetry": (1, 1, ()), "scf": (1, 2, ()), "bsc": (0, 9, ()), "occupancies": (5, 0, ()),
          "line_min": (0, 1, ()), "forces": (0, 1, ()), "stress": (0, 1, ()), "orbital": (0, 1, ()), "thermodynamics": (1, 2, ()),
          "displacements": (1, 1, ()), "band_structure": (2, 0, ()), "dipole": (2, 0, ()), "tddft": (1, 2, ()), "contributions": (0, 0, (8,)),
          "berry": (1, 1, ()), "berry_verbose": (1, 1, (41, 42, 43)), "final": (1, 3, ()), "constraints": (0, 1, ()), "deloc": (0, 0, (11, 12)),
          "tss": (1, 1, (9, 10, 11))}
# Sections of single lines, and steps (castep_md_step, castep_geom_step).
OPEN = {"trial", "run_started", "finalisation", "efficiency", "continuation", "warning_line", "supercell", "quantisation", "pspot_debug", "energies",
        "solvation_energy", "spin_density", "md", "geom", "title", "efield"}


def h_section(S, which):
    text, _ = SECTIONS[which](C(S, 0))
    ls = text.splitlines(keepends=True)
    lead, tail, holes = AROUND.get(which, (1, 0, ()))
    cut = S.choice(*[k for k in range(lead + 1, len(ls) - tail) if k not in holes])
    pre = []
    if S.thorough:
        before = S.choice(None, "energies", "cell", which)
        pre = [SECTIONS[before](C(S, 0))[0], "\n"] if before else []
    S.raises((OSError, StopIteration, ValueError), lambda: parse_castep_file(S.file("".join(pre + ls[:cut])), Filters.FULL | Filters.TEST_EXTRA_DATA),
             f"{which} cut after line {cut}")


def h_empty(S):
    """A trajectory of no frame is an error."""
    head = S.choice("", " BEGIN header\n \n END header\n", " BEGIN header\n \n END header\n \n")
    S.raises((ValueError, OSError, StopIteration), lambda: parse_md_file(S.file(head)), "a trajectory of no frame")


def h_spins(S):
    """A population printed for both spins, the second of them missing."""
    v = [num(S) for _ in range(6)]
    head = ["     Atomic Populations (Mulliken)\n", "     -----------------------------\n",
            "Species          Ion Spin      s       p       d       f      Total   Charge(e)   Spin(hbar/2)\n", "=" * 90 + "\n"]
    up = "  Si              1   up:     " + "  ".join(v) + "  " + v[0] + "\n"
    dn = "                  1   dn:     " + "  ".join(v[:5]) + "\n"
    full = head + [up, dn, "=" * 90 + "\n"]
    S.check("mulliken_popn" in parse_castep_file(S.file("".join(full)))[0], "populations of both spins")
    bad = S.choice([up, "=" * 90 + "\n"], [up, up, dn, "=" * 90 + "\n"], [up, dn, up, "=" * 90 + "\n"])
    S.raises((ValueError, OSError, StopIteration), lambda: parse_castep_file(S.file("".join(head + bad))), "populations of one of two spins")


def cases(tier):
    return [("from_re", h_from_re), ("get_lines", h_get_lines), ("layout", h_layout), ("cycle", h_cycle),
            ("cst_esp", h_cst_esp), ("cst_columns", h_cst_columns), ("epme_bin", h_epme), *[(f"record{n}", h_record, dict(n=n)) for n in (1, 2, 3)],
            *[(f"text_{w}", h_text, dict(which=w)) for w in TEXT],
            *[(f"castep_{w}", h_castep, dict(which=w)) for w in CASTEP],
            *[(f"section_{w}", h_section, dict(which=w)) for w in SECTIONS if w not in OPEN], ("empty", h_empty), ("spins", h_spins)]
