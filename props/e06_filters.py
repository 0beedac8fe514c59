"""E06: parsing a .castep file with a set of filters returns exactly the sections it covers, unchanged."""
from props.castep import C, clean
from props.castep_file import ORDER, SECTIONS, after
from props.castep_scf import E02
from props.castep_steps import EQ, as_step, contents, finished

from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file

BOUNDS = ("each of 66 sections alone under every one of the 2^30 filter sets; every section with the next of a fixed round of all sections, and "
          "runs of six sections, each under every filter set; a file of all sections under every set of one filter, every set lacking one "
          "filter, the presets and none given; digits and signs symbolic, plain forms of each section (thorough: one departure for sections alone)")
OUTSIDE = ("which inner sections a filter set that asks for molecular-dynamics or geometry steps keeps within a step (at least those of the "
           "default), the steps' SCF cycles apart")
ASSUMPTIONS = ["the filter set is a stand-in for Filters with one symbolic truth value per member, offering membership, union, intersection, "
               "difference, complement, truth and equality; a counterexample is replayed with the real Filters"]

SINGLE = [f for f in Filters]
PRESETS = {"NONE": Filters.NONE, "LOW": Filters.LOW, "MEDIUM": Filters.MEDIUM, "HIGH": Filters.HIGH, "FULL": Filters.FULL, "ALL": Filters.ALL,
           "TESTING": Filters.TESTING}


def any_filters(S):
    """Any set of filters: what the parser is given, and a test for membership."""
    bits = {f.value: S.bool() for f in SINGLE}
    if S.symbolic:
        from sx.flags import FlagSet
        fs = FlagSet(Filters, bits)
    else:
        fs = Filters(sum(v for v, b in bits.items() if b))
    return fs, lambda name: bool(bits[Filters[name].value])


# What each section needs.  "" is always returned.
NEEDS = {}
for need, names in {
    "SYS_INFO": "build_info run_started finalisation efficiency continuation warning_line warning_box memory",
    "PARAMETERS": "title options pair_params dftd spins pressure kpoints_grid kpoints_list efield",
    "SPECIES_PROPS": "mass quadrupole pspot_files quantisation ps_energy",
    "PSPOT": "pspot_report pspot_debug",
    "CELL": "cell",
    "SYMMETRIES": "symmetry",
    "POSITION": "positions positions_labelled mixture velocities",
    "SCF": "scf bsc occupancies line_min",
    "SOLVATION": "solvation solvation_energy",
    "SCF or SPIN": "spin_density",
    "": "energies supercell",
    "FORCE": "forces com_force",
    "STRESS": "stress",
    "POPN_ANALYSIS": "mulliken orbital bonds born hirshfeld",
    "PHONON": "phonons sym_analysis dynamical raman",
    "THERMODYNAMICS": "thermodynamics displacements",
    "OPTICS": "permittivity polarisability nlo",
    "BS": "band_structure",
    "DIPOLE": "dipole",
    "ELF": "elf",
    "CHEM_SHIELDING": "shielding shielding_efg efg jcoupling hyperfine",
    "TDDFT": "tddft",
    "ELASTIC": "elastic_matrix contributions elastic_properties",
    "POLARISATION": "berry berry_verbose",
    "DELTA_SCF": "delta_scf",
    "MD or MD_SUMMARY": "md_data",
    "MD": "md",
    "GEOM_OPT": "geom trial constraints deloc",
    "GEOM_OPT or FINAL_CONFIG": "final",
    "TSS and POSITION": "tss",
    "TEST_EXTRA_DATA": "extra",
}.items():
    for n in names.split():
        NEEDS[n] = need


def wanted(need, has):
    if " or " in need:
        a, b = need.split(" or ")
        return has(a) or has(b)
    if " and " in need:
        a, b = need.split(" and ")
        return has(a) and has(b)
    return not need or has(need)


def judge(S, text, parts, fs, has, msg):
    got = parse_castep_file(S.file(text)) if fs is None else parse_castep_file(S.file(text), fs)
    want = {}
    for name, w in parts:
        if wanted(NEEDS[name], has):
            want = after(want, name, w)
    S.check(len(got) == (1 if want else 0), f"{msg}: a result if anything is wanted")
    if want:
        S.eq(clean(dict(got[0])), clean(want), msg)


def sequence(names, gap="\n"):
    def run(S):
        c = C(S, (1 if S.thorough else 0) if len(names) == 1 else 0)
        text, parts = "", []
        for n in names:
            t, w = SECTIONS[n](c)
            text = text + t + gap
            parts.append((n, w))
        fs, has = any_filters(S)
        judge(S, text, parts, fs, has, " + ".join(names))
    return run


def attached(S):
    """Another file's contents directly after the closing times are kept or left out on their own."""
    c = C(S, 0)
    text, want = SECTIONS["finalisation"](c)
    t, w = SECTIONS["extra"](c)
    fs, has = any_filters(S)
    judge(S, text[:-1] + t, [("finalisation", want), ("extra", w)], fs, has, "contents after the closing times")


def bsc_energies(S):
    """Energies at other cut-offs, SCF or not."""
    text, want = E02["bsc"](C(S, 0))
    fs, has = any_filters(S)
    got = parse_castep_file(S.file(text), fs)
    want = {"energies": want["energies"]} if not has("SCF") else want
    S.eq(dict(got[0]), want, "basis-set correction with and without SCF")


def scf_in_steps(S):
    """SCF cycles of a step are kept when they are asked for, and only then."""
    c = C(S, 0)
    which = S.choice("md", "geom")
    t, w = contents(c, ("scf", "energies"))
    e = ""
    w = as_step(w)
    if which == "md":
        text = EQ + " Starting MD iteration          1 ...\n" + EQ + "\n" + t + "\n ... finished MD iteration          1\n"
    else:
        e, x = finished(c, "BFGS", 1)
        w |= {"enthalpy": [x]}
        text = EQ + " Starting BFGS iteration          1 ...\n" + EQ + "\n" + t + e + "\n Finished BFGS\n"
    fs, has = any_filters(S)
    got = parse_castep_file(S.file(text), fs)
    if not has("MD" if which == "md" else "GEOM_OPT"):
        S.check(not got, "no steps")
        return
    if not has("SCF"):
        w.pop("scf")
    want = {"md": [w]} if which == "md" else {"geom_opt": {"iterations": [{}, w]}}
    S.eq(clean(dict(got[0])), clean(want), f"SCF cycles in {which} steps")


def pspot_strings(S):
    """Pseudopotential strings are taken apart when PSPOT is asked for, and are given as printed otherwise."""
    c = C(S, 0)
    s = "3|1." + c.d(1) + "|4|" + c.d(1) + "|6|10:11"
    text = "                                  Files used for pseudopotentials:\n" + " " * 36 + "Si   " + s + "\n\n"
    fs, has = any_filters(S)
    got = parse_castep_file(S.file(text), fs)
    S.check(len(got) == (1 if has("SPECIES_PROPS") else 0), "pseudopotential files only with SPECIES_PROPS")
    if got:
        p = got[0]["species_properties"]["Si"]["pseudopot"]
        if has("PSPOT"):
            S.check(isinstance(p, dict), "pseudopotential string taken apart")
            S.eq(p["string"], s, "pseudopotential string")
            S.eq(p["core_radius"], float(s[2:5]), "its core radius")
        else:
            S.eq(p, s, "pseudopotential string as printed")


# What the presets ask for, down to the widest.
LOW = ("BS CELL CHEM_SHIELDING DELTA_SCF DIPOLE ELASTIC ELF FINAL_CONFIG FORCE MD_SUMMARY OPTICS POLARISATION POPN_ANALYSIS POSITION SOLVATION "
       "SPECIES_PROPS SPIN STRESS TDDFT THERMODYNAMICS TSS")
MEDIUM = LOW + " PARAMETERS GEOM_OPT MD PHONON"
COVER = {"LOW": LOW, "MEDIUM": MEDIUM, "HIGH": MEDIUM + " PSPOT SYMMETRIES SYS_INFO",
         "TESTING": "BS CELL CHEM_SHIELDING DIPOLE ELASTIC ELF FORCE GEOM_OPT MD OPTICS PHONON POPN_ANALYSIS POSITION PSPOT SOLVATION "
                    "SPECIES_PROPS STRESS TDDFT TEST_EXTRA_DATA THERMODYNAMICS TSS"}


def presets(S):
    """Presets widen; the widest takes everything but the test data."""
    f = S.choice(*SINGLE)
    order = [PRESETS[n] for n in ("NONE", "LOW", "MEDIUM", "HIGH", "FULL")]
    for a, b in zip(order, order[1:]):
        S.check(f not in a or f in b, f"{f.name}: a wider preset keeps it")
    S.check(f not in Filters.NONE, f"{f.name} not in NONE")
    S.check((f in Filters.FULL) == (f.name != "TEST_EXTRA_DATA"), f"{f.name} in FULL")
    S.check(Filters.ALL == Filters.FULL, "ALL is FULL")
    for name, has in COVER.items():
        S.check((f in Filters[name]) == (f.name in has.split()), f"{f.name} in {name}: {f.name in has.split()}")


def whole(kinds):
    def run(S):
        c = C(S, 0)
        text, parts = "", []
        for n in ORDER:
            if n == "bsc":
                continue
            t, w = SECTIONS[n](c)
            text = text + t + "\n"
            parts.append((n, w))
        kind = S.choice(*kinds)
        if kind == "preset":
            fs = S.choice(None, *PRESETS.values())
        else:
            f = S.choice(*SINGLE)
            fs = f if kind == "one" else Filters(sum(x.value for x in SINGLE)) & ~f
        judge(S, text, parts, fs, lambda name: Filters[name] in (Filters.HIGH if fs is None else fs), "a file of all sections")
    return run


def pairs(chain):
    def run(S):
        i = S.choice(*range(len(chain) - 1))
        sequence(chain[i:i + 2], "")(S)
    return run


def cases(tier):
    out = [("alone_" + n, sequence([n])) for n in SECTIONS if n != "bsc"]
    ring = [n for n in ORDER if n != "bsc"]
    out += [("pairs_" + ring[i], pairs((ring + ring[1:2])[i:i + 7])) for i in range(0, len(ring), 6)]
    out += [("runs_" + ring[i], sequence(ring[i:i + 6])) for i in range(0, len(ring), 6)]
    out += [("whole_one", whole(["one"])), ("whole_but_one", whole(["but_one"])), ("whole_preset", whole(["preset"]))]
    return out + [("attached", attached), ("scf_in_steps", scf_in_steps), ("pspot_strings", pspot_strings), ("presets", presets), ("bsc_energies", bsc_energies)]
