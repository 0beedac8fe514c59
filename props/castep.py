"""Sections of .castep files: symbolic text and what it says.

Every builder takes a context C and returns (text, dict of what the section says).  C.v picks the first
option by default and, within a budget of deviations, any other: one deviation at a time in the quick
tier, two in the thorough tier, none when sections are combined.
"""
from props.common import EXP2, EXP3, digits, floats, nz, pad, pint, real, sign, uint

from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file


class C:
    def __init__(self, S, left=None):
        self.S = S
        self.left = (4 if S.thorough else 3) if left is None else left

    def v(self, *opts):
        if self.left <= 0 or len(opts) == 1:
            return opts[0]
        i = self.S.choice(*range(len(opts)))
        if i:
            self.left -= 1
        return opts[i]

    def n(self, default, *alts):
        """A count."""
        return self.v(default, *alts)

    def r(self, ip=1, fp=3, sg="sym", exp=None):
        return real(self.S, ip, fp, sg, exp)

    def rs(self, n, ip=1, fp=3, sg="sym", exp=None):
        return [real(self.S, ip, fp, sg, exp) for _ in range(n)]

    def u(self, n=1):
        return uint(self.S, n)

    def pi(self, n=1):
        return pint(self.S, n)

    def d(self, n=1):
        return digits(self.S, n)

    def word(self, n=3):
        return self.S.chars(1, "upper") + self.S.chars(n - 1, "lower")


MANY = 12, 40  # quick, thorough


class Many(C):
    """The plain form, but with twelve of something once: which is left open."""
    def __init__(self, S):
        super().__init__(S, 0)
        self.asked = 5

    def n(self, default, *alts):
        if self.asked <= 0 or not alts:
            return default
        self.asked -= 1
        if not self.S.flag():
            return default
        self.asked = 0
        return MANY[1 if self.S.thorough else 0]


def parse(S, text, filters=None):
    return parse_castep_file(S.file(text), Filters.FULL if filters is None else filters)


def check(S, text, want, msg):
    S.eq(parse(S, text), [want], msg)


# What a run keeps several of, in order; of anything else the last one printed counts.
SEVERAL = {"warning", "memory_estimate", "pspot_detail", "pspot_debug", "pair_params", "scf", "wvfn_line_min", "occupancies", "modspin", "spin",
           "target_stress", "phonon_symmetry_analysis", "raman", "born", "md", "enthalpy", "minimisation", "magres"}
# What sections printed apart fill together.
JOINED = {"energies", "forces", "stresses", "species_properties", "labels", "geom_opt", "elastic", "berry_phase", "delocalised_internal", "external_files"}
BY_KEY = {"energies", "forces", "stresses"}


def merge(a, b):
    """What two parts of a run say together."""
    out = dict(a)
    for k, v in b.items():
        if k in SEVERAL and isinstance(out.get(k), (list, tuple)) and isinstance(v, (list, tuple)):
            out[k] = type(v)([*out[k], *v])
        elif k in JOINED and k in out:
            x = dict(out[k])
            for kk, vv in v.items():
                if (k in BY_KEY or kk == "trial") and kk in x:
                    x[kk] = type(vv)([*x[kk], *vv])
                elif k == "species_properties" and kk in x:
                    x[kk] = {**x[kk], **vv}
                else:
                    x[kk] = vv
            out[k] = x
        else:
            out[k] = v
    return out


def clean(x):
    """Without what E04 and E05 report (pressures of the MD data, the polarisation in other units) or compare up to rounding."""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if not (isinstance(k, str) and ("_pressure" in k or "/" in k and "pressure" in k))
                and not (k == "geom_opt" and not v) and not (k in ("phase", "val", "units") and any(type(j) is tuple for j in x))
                and not (k in ("trace", "ii") and "depolarisation" in x)}
    return [clean(v) for v in x] if isinstance(x, list) else x


# Atoms: several species with tags and labels, plain by default.
def atoms(c, n=2, labels=True):
    first = c.v("Si", "H:tag", "Uue", "C", "H:t_1", *(["H [H1]", "Si:a [b2]"] if labels else []))
    idx = c.v("1", c.pi(1), c.pi(2), c.pi(4))
    return [(first, idx), ("O", "1"), ("O", "2"), ("Mn", "10"), ("Mn", "11"),
            *[("Xe", str(k + 95)) for k in range(n - 5)]][:n]


def key(a):
    return (a[0], int(a[1]))


def col(c, w, ip=1, fp=3, sg="sym", exp=None):
    return pad(c.r(ip, fp, sg, exp), w)


# ------------------------------------------------------------------ E01: system
def build_info(c):
    d = c.d
    comp, opt = "GNU Fortran " + d(2) + "." + d(1), c.word()
    fft = "fftw3 version fftw-3.3." + d(2)
    const = "CODATA " + d(4)
    when = "GNU " + d(2) + " on " + d(2) + "-" + d(2) + "-" + d(4)
    code = "from code version " + c.S.chars(4, "hex" if False else "0123456789abcdef") + " branch " + d(2) + ":" + d(2)
    sp = c.v(" ", "        ", "")
    lines = [("compiler", "Compiler", comp + "; Optimisation: " + opt), ("comms", "Comms   ", "Open MPI v4." + d(1)),
             ("mathlibs", "MATHLIBS", "blas (LAPACK version 3." + d(2) + ")"), ("fft_lib", "FFT Lib ", fft),
             ("fundamental_constants_values", "Fundamental constants values", const)]
    lines = lines[:c.n(5, 0, 1)]
    text = sp + "Compiled for  " + when + "\n" + sp + code + "\n"
    for _, k, v in lines:
        text = text + sp + k + ": " + v + "\n"
    want = {"summary": "Compiled for " + when + " " + code}
    want.update({k: v for k, _, v in lines})
    return text + c.v("\n", "  \n"), {"build_info": want}


def run_started(c):
    v = "Fri, " + c.d(2) + " Apr " + c.d(4) + " " + c.d(2) + ":" + c.d(2) + ":" + c.d(2) + " +0100"
    return c.v("", " ") + "Run started: " + v + "\n", {"time_started": v}


def finalisation(c):
    ip = c.v(2, 1, 5)
    t = [c.r(ip, 2, "") for _ in range(4)]
    m = c.pi(c.v(6, 1, 8))
    names = ("Initialisation time", "Calculation time   ", "Finalisation time  ", "Total time         ")
    text = "".join(n + " = " + pad(x, 9) + " s\n" for n, x in zip(names, t))
    want = dict(zip(("initialisation_time", "calculation_time", "finalisation_time", "total_time"), floats(t)))
    if c.v(True, False):
        text = text + "Peak Memory Use     = " + pad(m, 6) + " kB\n"
        want["peak_memory_use"] = float(m)
    return text + "\n", want


def efficiency(c):
    p = c.v(c.d(2), "100", c.d(1), "1" + c.d(2))
    return "Overall parallel efficiency rating: " + c.v("Satisfactory", "Very good", "Terrible") + " (" + p + "%)\n", {
        "parallel_efficiency": float(p)}


def continuation(c):
    n = c.v("", "../", "/a/b.") + c.S.chars(1, "alpha") + c.S.chars(c.v(2, 1, 5), "word") + ".check"
    return "Reading continuation data from model file " + n + "\n", {"continuation": n}


def title(c):
    t = c.S.chars(1, "upper") + c.S.chars(c.v(3, 1, 8), "word") + c.v("", "-" + c.S.chars(2, "word"), " " + c.S.chars(2, "lower"))
    return ("************************************ Title ************************************\n" + c.v(" ", "", "    ") + t
            + c.v("\n\n", "\n"), {"title": t})


def warning_line(c):
    """One-line warning, with or without continuation lines."""
    lead, w = c.v((" Warning in p: ", "Warning in p: "), (" WARNING - ", "WARNING - "), ("TS: Warning - ", "TS: Warning - "),
                  ("   warning: ", "warning: "), ("Warning: ", "Warning: "))
    body = "value of " + c.word() + " " + c.d(2)
    cont = [c.word() + " = " + c.r(1, 2, ""), "is too " + c.S.chars(3, "lower")][:c.n(2, 1, 0)]
    cont = cont + cont[:1] if c.v(False, True) else cont  # the same line again
    ind = " " * (len(lead) - len(lead.lstrip())) + c.v("  ", " ", "      ") if not lead.startswith("TS") else "  "
    text = lead + body + "\n" + "".join(ind + x + "\n" for x in cont)
    want = {"warning": [" ".join([w + body, *cont])]}
    if c.v(False, True):
        e = c.r(3, 4)
        return text + "Total energy corrected for finite basis set = " + e + " eV\n", want | {
            "energies": {"final_basis_set_corrected": (float(e),)}}
    return text + "\n", want


def warning_box(c):
    bar = "?" * 60 + "\n"
    lines = ["Warning in secondd_" + c.S.chars(2, "lower"), "Failed to identify " + c.d(1) + " eigenvectors",
             "sum rule : " + c.d(1) + " mode(s)"][:c.n(3, 1, 2)]
    lines = lines + lines[-1:] if c.v(False, True) else lines  # the same line again
    return (bar + "".join("    " + x + "\n" for x in lines) + "?" * c.v(0, 1) + bar, {"warning": [" ".join(lines)]})


MEM = "+---------------- MEMORY AND SCRATCH DISK ESTIMATES PER PROCESS --------------+\n"


def memory(c):
    ind = c.v("        ", "")
    names = ("Model and support data", "Electronic energy minimisation requirements", "Force calculation requirements")
    text = ind + MEM + ind + "|                                                     Memory          Disk    |\n"
    want = {}
    for n in names[:c.n(2, 1, 3)]:
        a, b = c.r(c.v(2, 1, 5), 1, ""), c.r(1, 1, "")
        text = text + ind + "| " + n.ljust(47) + pad(a, 10) + " MB" + pad(b, 12) + " MB |\n"
        want["_".join(n.lower().split())] = {"memory": float(a), "disk": float(b)}
    text = text + ind + "|                                               ----------------------------- |\n"
    text = text + ind + "| Requirements will fluctuate during execution and may exceed these estimates |\n"
    text = text + ind + "+-----------------------------------------------------------------------------+\n"
    return text, {"memory_estimate": [want]}


HEAD = "                           -------------------------------\n"


def header(name):
    return HEAD + " " * 35 + name + "\n" + HEAD


def cell_body(c):
    real_, recip = [c.rs(3, 2, 7) for _ in range(3)], [c.rs(3, 1, 9) for _ in range(3)]
    text = "        Real Lattice(A)                      Reciprocal Lattice(1/A)\n"
    for a, b in zip(real_, recip):
        text = text + "  " + " ".join(pad(x, 13) for x in a) + "      " + " ".join(pad(x, 13) for x in b) + "\n"
    text = text + "\n                       Lattice parameters(A)       Cell Angles\n"
    par, ang = c.rs(3, 2, 6, ""), c.rs(3, c.v(2, 3), 6, "")
    for x, a, n, m in zip("abc", par, ang, ("alpha", "beta ", "gamma")):
        m = n
    for x, a, m, n in zip("abc", par, ("alpha", "beta ", "gamma"), ang):
        text = text + " " * 20 + x + " = " + pad(a, 13) + "          " + m + " = " + pad(n, 11) + "\n"
    want = {"real_lattice": [floats(x) for x in real_], "recip_lattice": [floats(x) for x in recip],
            "lattice_parameters": list(floats(par)), "cell_angles": list(floats(ang))}
    vol, d1, d2 = c.r(c.v(3, 5), 6, ""), c.r(1, 6, ""), c.r(2, 6, "")
    text = text + "\n                       Current cell volume = " + pad(vol, 20) + c.v("       A**3\n", " A**3\n")
    want["volume"] = float(vol)
    if c.v(True, False):
        text = text + " " * 35 + "density = " + pad(d1, 20) + "   AMU/A**3\n" + " " * 43 + "= " + pad(d2, 20) + "     g/cm^3\n"
        want["density_amu"], want["density_g"] = float(d1), float(d2)
    return text + "\n", want


def cell(c):
    text, want = cell_body(c)
    return header("Unit Cell") + text, {"initial_cell": want}


def supercell(c):
    m = [[c.v("", "-") + c.d(1) for _ in range(3)] for _ in range(3)]
    return ("    Supercell generated using matrix  [" + "; ".join(",".join(r) for r in m) + "]\n",
            {"supercell": tuple(floats(r) for r in m)})


X = "x" * 60


def at_rows(c, at, prec=6, ip=1, ind=8):
    text, want = "", {}
    for a in at:
        p = c.rs(3, ip, prec)
        text = text + " " * ind + "x  " + a[0].ljust(8) + pad(a[1], 6) + "         " + "   ".join(p) + "   x\n"
        want[key(a)] = floats(p)
    return text, want


def positions(c):
    rows, want = at_rows(c, atoms(c, c.n(2, 1, 4)), ip=c.v(1, 2, 3))
    ind = " " * 8
    hd = header("Cell Contents") + "\n" if c.v(True, False) else ""
    return (hd + ind + X + "\n" + ind + "x  Element    Atom        Fractional coordinates of atoms  x\n" + ind
            + "x            Number           u          v          w      x\n" + ind + "x" + "-" * 58 + "x\n" + rows + ind + X + "\n",
            {"initial_positions": want})


def positions_labelled(c):
    """User-defined labels."""
    text = "     x  Element    Atom        Fractional coordinates of atoms  User-defined  x\n"
    text = text + "     x            Number           u          v          w          LABEL     x\n     x" + "-" * 72 + "x\n"
    pos, lab = {}, {}
    at = atoms(c, c.n(2, 1, 4), labels=False)
    for k, a in enumerate(at):
        p = c.rs(3, 1, 6)
        label = c.v("", c.S.chars(2, "alnum"), c.S.chars(8, "alnum"), "C-1.a'") if k == 0 else "L" + str(k)
        text = text + "     x  " + a[0].ljust(8) + pad(a[1], 6) + "        " + "  ".join(p) + "     " + label.ljust(8) + "    x\n"
        lab[key(a)] = label if len(label) else "NULL"
        pos[(a[0] + " [" + label + "]" if len(label) else a[0], int(a[1]))] = floats(p)
    return "     " + "x" * 74 + "\n" + text + "     " + "x" * 74 + "\n", {"initial_positions": pos, "labels": lab}


def mixture(c):
    text = "        x  Mixture   Fractional coordinates of atoms  Components  Weights  x\n"
    text = text + "        x   atoms       u          v          w                            x\n        x" + "-" * 66 + "x\n"
    want = {}
    for k in range(c.n(1, 2)):
        i = str(k + 1)
        p, pos = None, None
        sp = [c.v("Si", "Si [A1]", "Si:t"), "Ge", "C"][:c.n(2, 1, 3)]
        for n, s in enumerate(sp):
            w = c.r(1, 6, "")
            if n == 0:
                p = c.rs(3, 1, 6)
                pos = floats(p)
                text = text + "        x  " + pad(i, 3) + "        " + "   ".join(p) + "   " + s.ljust(8) + "  " + w + "  x\n"
            else:
                text = text + "        x" + " " * 46 + s.ljust(8) + "  " + w + "  x\n"
            want[(s, k + 1)] = {"pos": pos, "weight": float(w)}
    return "        " + "x" * 68 + "\n" + text + "        " + "x" * 68 + "\n", {"initial_positions": want}


def velocities(c):
    rows, want = at_rows(c, atoms(c, c.n(2, 1, 3)), ip=c.v(1, 2))
    ind = " " * 8
    return (ind + X + "\n" + ind + "x  Element    Atom        User Supplied Ionic Velocities   x\n" + ind
            + "x            Number          Vx         Vy         Vz      x\n" + ind + "x" + "-" * 58 + "x\n" + rows + ind + X + "\n",
            {"initial_velocities": want})


def spins(c):
    text = "         |  Element    Atom         Initial            Initial magnetic       |\n"
    text = text + "         |            Number    spin polarization        moment (uB)     Fix? |\n         |" + "-" * 68 + "|\n"
    want = {}
    for a in atoms(c, c.n(2, 1, 3)):
        s, m = c.r(1, 6), c.r(c.v(1, 2), 3)
        f = c.v("F", "T")
        text = text + "         | " + a[0].ljust(10) + pad(a[1], 6) + "  " + pad(s, 16) + "  " + pad(m, 17) + "       " + f + "       |\n"
        want[key(a)] = {"spin": float(s), "magmom": float(m), "fix": f == "T"}
    return "         " + "x" * 70 + "\n" + text + "         " + "x" * 70 + "\n", {"initial_spins": want}


SPEC = ("Mn", "O", "H:tag", "Uue")


def species(c):
    return (c.v("Mn", "Uue", "H:tag", "H"), "O", "Na")[:c.n(2, 1, 3)]


def mass(c):
    text, want = "                               Mass of species in AMU\n", {}
    for s in species(c):
        m = c.r(c.v(2, 1, 3), 7, "")
        text = text + " " * 36 + s.ljust(5) + " " + m + "\n"
        want[s] = {"mass": float(m)}
    return text + "\n", {"species_properties": want}


def quadrupole(c):
    text, want = "                          Electric Quadrupole Moment (Barn)\n", {}
    for s in species(c):
        m = c.r(1, 7, c.v("", "-"))
        text = text + " " * 36 + s.ljust(5) + " " + m + c.v(" Isotope " + c.d(2), " No Isotope Defined") + "\n"
        want[s] = {"electric_quadrupole_moment": float(m)}
    return text + "\n", {"species_properties": want}


def pspot_files(c):
    """Files or on-the-fly; generation strings are D03's."""
    text, want = "                                  Files used for pseudopotentials:\n", {}
    for s in species(c):
        f = c.v("Mn_" + c.d(2) + "PBE_OP.recpot", "on-the-fly", "/p/" + c.S.chars(2, "word") + ".usp")
        text = text + " " * 36 + s.ljust(5) + " " + f + "\n"
        want[s] = {"pseudopot": f}
    return text + "\n", {"species_properties": want}


def quantisation(c):
    q = c.rs(3, 1, 5)
    return "         Quantisation axis:    " + "   ".join(q) + "\n", {"quantisation_axis": floats(q)}


def ps_energy(c):
    s = c.v("Fe", "H", "Uue")
    sh = " ".join(c.d(1) + o + c.d(n) for o, n in (("d", 1), ("s", 1), ("p", 2))[:c.n(2, 1, 3)])
    e = c.r(c.v(3, 1, 5), 4)
    text = (" Pseudo atomic calculation performed for " + s + " " + sh + "\n\n Converged in " + c.d(2)
            + " iterations to a total energy of " + e + " eV\n")
    want = {"pseudo_atomic_energy": float(e)}
    n = c.n(0, 1, 2)
    sp = []
    for k in range(n):
        p = c.d(1) + "." + c.d(2)
        text = text + "Charge spilling parameter for spin component " + str(k + 1) + " = " + p + "%\n"
        sp.append(0.01 * float(p))
    if n:
        want["charge_spilling"] = tuple(sp)
    return text + "\n", {"species_properties": {s: want}}


def pspot_report(c):
    """Pseudopotential report; the generation string is D03's."""
    bar = "   " + "=" * 60 + "\n"
    el, q, lv = c.v("Mn", "H", "Uue"), c.d(2) + "." + c.d(2), c.v("LDA", "PBE", "r2SCAN")
    text = bar + "   | Pseudopotential Report - Date of generation " + c.d(2) + "-" + c.d(2) + "-" + c.d(4) + "   |\n"
    text = text + "   " + "-" * 60 + "\n   | Element: " + el + " Ionic charge: " + q + " Level of theory: " + lv + "     |\n"
    sol = c.v("Koelling-Harmon", "Dirac (FR)", "Zora SR")[:c.v(15, 15)]
    if sol.startswith("Dirac"):
        sol = "Dirac"
    text = text + "   | Atomic Solver: " + sol + "                          |\n   |" + " " * 58 + "|\n"
    text = text + "   |               Reference Electronic Structure             |\n"
    text = text + "   |         Orbital         Occupation         Energy        |\n"
    ref, de = [], []
    for k in range(c.n(2, 1, 3)):
        o = c.d(1) + "spdf"[k % 4] + c.v("", "1/2", "3/2")
        a, b = c.r(c.v(1, 2), 3, ""), c.r(1, 3, "sym")
        text = text + "   |          " + o.ljust(6) + pad(a, 16) + pad(b, 17) + "         |\n"
        ref.append({"orb": o, "occupation": float(a), "energy": float(b)})
    text = text + "   |" + " " * 58 + "|\n   |                 Pseudopotential Definition               |\n"
    text = text + "   |      Beta    l   2j     e      Rc     scheme   norm      |\n"
    for k in range(c.n(2, 1, 3)):
        b = c.v(c.pi(1), "loc")
        l, j = c.d(1), c.v(c.d(1), "")
        e, rc = c.r(1, 3, "sym"), c.r(1, 3, "")
        sch, n = c.v("qc", "pn"), c.d(1)
        text = (text + "   |      " + pad(b, 3) + "     " + l + "    " + j.ljust(1) + "   " + e + "   " + rc + "     " + sch + "     " + n
                + "        |\n")
        de.append({"beta": b if b == "loc" else int(b), "l": int(l), "j": int(j) if len(j) else None, "e": float(e), "Rc": float(rc),
                   "scheme": sch, "norm": int(n)})
    want = {"element": el, "ionic_charge": float(q), "level_of_theory": lv, "solver": sol,
            "reference_electronic_structure": ref, "pseudopotential_definition": de}
    if c.v(True, False):
        a, p = c.r(1, 3, ""), c.r(1, 3, "")
        text = text + "   |" + " " * 58 + "|\n   | Augmentation charge Rinner = " + a + "                       |\n"
        text = text + "   | Partial core correction Rc = " + p + "                       |\n"
        want["augmentation_charge_rinner"], want["partial_core_correction"] = (float(a),), (float(p),)
    return text + "   " + "-" * 60 + "\n   |      Author: Chris J. Pickard, Cambridge University      |\n" + bar, {"pspot_detail": [want]}


def pspot_debug(c):
    text, want = "", []
    for t in ("AE", "PS", "PS")[:c.n(2, 1, 3)]:
        n, e = c.pi(2), c.r(c.v(1, 2), 8)
        text = text + " " + t + " eigenvalue nl " + n + " = " + e + "\n"
        want.append({"type": t, "nl": int(n), "eigenvalue": float(e)})
    return text, {"pspot_debug": want}


def opt_value(c):
    """Value of an option as printed, and what it says."""
    k = c.v("text", "int", "real", "unit", "exp", "colon", "verb", "words", "empty")
    if k == "empty":
        return "", ""
    if k == "int":
        t = c.u(3)
        return pad(t, 10), int(t)
    if k == "real":
        t = c.r(1, 4, c.v("", "-"))
        return pad(t, 10), float(t)
    if k == "unit":
        t, u = c.r(3, 4, ""), c.S.chars(2, "alpha")
        return pad(t, 10) + c.v("   ", " ") + u, (float(t), u)
    if k == "exp":
        t = c.r(1, 4, "", EXP2)
        return pad(t, 10) + " eV", (float(t), "eV")
    if k == "colon":
        t = "a" + c.S.chars(1, "alnum") + ":" + c.d(1)
        return t, t
    if k == "verb":
        t = "normal  (" + c.d(1) + ")"
        return t, "normal (" + t[-2] + ")"
    if k == "words":
        t, u = c.u(2), c.S.chars(2, "alpha")
        return pad(t, 10) + " " + u + " per step", (int(t), u, "per", "step")
    t = c.S.chars(1, "alpha") + c.S.chars(3, "word")
    return t, t


def options(c):
    want = {}
    text = ""
    for g, w in (("General Parameters", "general"), ("Density Mixing Parameters", "density mixing"),
                 ("Constrained DFT - deltaSCF", "constrained dft - deltascf"))[:c.n(2, 1, 3)]:
        text = text + " " + "*" * 29 + " " + g + " " + "*" * 30 + "\n\n"
        want[w] = {}
        for k in range(c.n(2, 1, 3)):
            name = ("output verbosity", "max. length of mixing history", "charge density mixing amplitude",
                    *["option " + "abcdefghi"[j] for j in range(9)])[k]
            t, v = opt_value(c)
            text = text + " " + name.ljust(46) + " : " + t + "\n"
            want[w][name] = v
        text = text + "\n"
    if c.v(False, True):
        u = c.S.chars(2, "alpha")
        text = text + " output         length unit                     : " + u + "\n\n"
        want["output_units"] = {"length": u}
    if c.v(False, True):
        x, n = c.r(1, 4, ""), c.u(2)
        text = text + " " + "*" * 31 + " Developer Code " + "*" * 32 + "\n\n DW_FACTOR:\n Si " + x + "\n :ENDDW_FACTOR\n HKL:\n 0 0 " + n
        text = text + "\n 1 1 1\n :ENDHKL\n\n"
        want["devel_code"] = {"dw_factor": {"data": ["Si", float(x)]}, "hkl": {"data": [0, 0, int(n), 1, 1, 1]}}
    return text + " " + "*" * 79 + "\n", {"options": want}


def dftd(c):
    s6, d = c.r(1, 6, ""), c.r(2, 6, "")
    sch = c.v("G06", "TS", "XDM")
    want = {"dispersion_correction_scheme": sch, "parameter_s6": float(s6), "parameter_d": float(d), "species": {}}
    text = ("                                --------------------\n                                  DFT-D parameters\n"
            "                                --------------------\n\n                          Dispersion-correction scheme : " + sch + "\n"
            "                        Parameter s6 :   " + s6 + " (default)\n                        Parameter d  :  " + d + " (default)\n\n")
    b = " " * 8
    text = (text + b + "x" * 68 + "\n" + b + "x              Atomic DFT-D parameters                             x\n" + b
            + "x  Species      C6            R0                                   x\n" + b + "x" + "-" * 66 + "x\n")
    for s in species(c):
        x, y = c.r(2, 4, ""), c.r(1, 4, "")
        text = text + b + "x  " + s.ljust(8) + pad(x, 12) + pad(y, 13) + "   (default)                   x\n"
        want["species"][s] = {"c6": float(x), "r0": float(y)}
    return text + b + "x" * 68 + "\n\n", {"dftd": want}


def kpoints_grid(c):
    g = [c.pi(c.v(1, 2)) for _ in range(3)]
    o = c.rs(3, 1, 3)
    n = c.pi(c.v(2, 1, 4))
    text, want = header("k-Points For BZ Sampling"), {}
    if c.v(True, False):
        text = text + "                       MP grid size for SCF calculation is  " + "  ".join(g) + "\n"
        text = text + "                            with an offset of   " + "  ".join(o) + "\n"
        want = {"kpoint_mp_grid": tuple(map(int, g)), "kpoint_mp_offset": floats(o)}
    want["num_kpoints"] = int(n)
    return text + "                       Number of kpoints used = " + pad(n, 13) + "\n\n", {"k-points": want}


def kpoint_lines(c, n, same=True):
    text = "             +" + "+" * 55 + "\n             +  Number       Fractional coordinates        Weight  +\n             +" + "-" * 53 + "+\n"
    pts = []
    for k in range(n):
        q = c.rs(3, 1, 6)
        if same:
            q[2] = q[0]  # the third coordinate is a finding of its own
        w = c.r(1, 7, "")
        text = text + "             +" + pad(str(k + 1), 6) + "   " + "   ".join(q) + "   " + w + "  +\n"
        pts.append({"qpt": floats(q), "weight": float(w)})
    return text + "             +" + "+" * 55 + "\n", pts


def kpoints_list(c):
    text, pts = kpoint_lines(c, c.n(2, 1, 3, 11))
    return text, {"k-points": {"points": pts, "num_kpoints": len(pts)}}


def efield(c):
    f = c.rs(3, 1, 5)
    return "                          Applied Electric Field (eV/A/e)\n                          " + "   ".join(f) + "\n", {
        "applied_field": floats(f)}


def pressure(c):
    f = c.rs(6, c.v(1, 2), 5)
    return ("                         External pressure/stress (GPa)\n                          " + "   ".join(f[:3]) + "\n" + " " * 36
            + "   ".join(f[3:5]) + "\n" + " " * 46 + f[5] + "\n", {"target_stress": [list(floats(f))]})


def symmetry(c):
    dev = c.r(1, 5, "")
    ops = c.n(1, 0, 2)
    ncon = c.n(1, 0, 2)
    nops, pg, sg = c.pi(2), c.pi(2), c.pi(3)
    text, sym, con = header("Symmetry and Constraints") + "\n", {}, {}
    if c.v(False, True):
        n = c.pi(1)
        text = text + "                      Cell is a supercell containing " + n + " primitive cells\n"
        sym["n_primitives"] = int(n)
    text = text + "                      Maximum deviation from symmetry =  " + dev + "         ANG\n\n"
    text = text + "                      Number of symmetry operations   = " + pad(nops, 11) + "\n"
    nc = c.u(1)
    text = text + "                      Number of ionic constraints     = " + pad(nc, 11) + "\n"
    text = text + "                      Point group of crystal =    " + pg + ": Oh, m-3m, 4/m -3 2/m\n"
    text = text + "                      Space group of crystal =   " + sg + ": P4_132, P 4bd 2ab 3\n\n"
    sym.update(max_deviation=float(dev), num_symmetry_operations=int(nops),
               point_group={"id": int(pg), "schoenflies": "Oh", "hermann_mauguin": "m-3m", "hermann_mauguin_full": "4/m -3 2/m"},
               space_group={"id": int(sg), "international": "P4_132", "hall": "P 4bd 2ab 3"})
    con["num_ionic_constraints"] = int(nc)
    for k in range(ops):
        m = [c.rs(3, 1, 11) for _ in range(3)]
        d = c.rs(3, 1, 11)
        text = text + "                    " + str(k + 1) + " rotation\n"
        text = text + "".join("                 (   " + "   ".join(r) + " )\n" for r in m)
        text = text + "                    " + str(k + 1) + " displacement\n                 (   " + "   ".join(d) + " )\n"
        text = text + "                      symmetry related atoms:\n"
        rel = []
        for s in (c.v("Br", "H:tag"[:1]), c.v("Rb", "Br"))[:c.n(1, 2)]:
            ix = [c.pi(1) for _ in range(c.n(2, 1))]
            text = text + "             " + s + ":    " + "    ".join(ix) + "\n"
            rel += [(s, int(i)) for i in ix]
        text = text + "\n"
        sym.setdefault("symop", []).append({"rotation": [floats(r) for r in m], "displacement": floats(d), "symmetry_related": rel})
    if not ops:
        text = text + "             Set iprint > 1 for details on symmetry rotations/translations\n\n"
    com = c.v(True, False)
    text = text + "                         Centre of mass is " + ("" if com else "NOT ") + "constrained\n\n"
    con["com_constrained"] = com
    if ncon:
        text = text + "            " + "x" * 62 + "....\n            x  Species       atom   co-ordinate  constraints.....\n"
        text = text + "            x" + "-" * 61 + "....\n"
        con["ionic_constraints"] = {}
        for a in atoms(c, 2, labels=False)[:ncon]:
            rows = [c.rs(3, 1, 4) for _ in range(3)]
            for x, r in zip("xyz", rows):
                text = text + "            x " + a[0].ljust(6) + pad(a[1], 13) + "       " + x + "      " + "  ".join(r) + "\n"
            con["ionic_constraints"][key(a)] = [floats(r) for r in rows]
        text = text + "            " + "x" * 62 + "....\n\n"
    cc = [c.d(1) for _ in range(6)]
    n = c.u(1)
    text = text + "                         Number of cell constraints= " + n + "\n                         Cell constraints are:  " + " ".join(cc) + "\n"
    con["num_cell_constraints"] = int(n)
    con["cell_constraints"] = tuple(map(int, cc))
    return text + "\n", {"symmetries": sym, "constraints": con}


PAIRS = ("LJ", "BUCK", "SHO")


def pair_params(c):
    tag = c.v("", "SR")
    t0 = (tag + " " if tag else "   ")
    st = t0 + "*" * 68 + "\n"
    text = t0 + "************************     PairParams     ************************\n" + t0 + "*" + " " * 66 + "*\n"
    text = text + t0 + "*                               Two Body                           *\n"
    want = {}
    n = min(c.n(2, 1, 3), 3)
    typ = c.v("LJ", "BUCK")
    name = (tag + "_" if tag else "") + typ
    if n == 1:
        text = text + t0 + "*                               H                                  *\n"
        labels = [("H",)]
    else:
        labels = [("H", "H"), ("H", "He"), ("He", "Si:a")][:n]
        text = text + t0 + "*         " + "       ".join(a.ljust(2) + " -" + b for a, b in labels) + "                    *\n"
    want[name] = {}
    for p in ("r", "e", "s_1")[:c.n(2, 1, 3)]:
        v = c.rs(n, 2, 5, "")
        text = text + t0 + "* " + pad(p, 4) + "     " + "    ".join(v) + "   " + c.v("A", "eV/A^2", "eV") + "        * <--   " + typ + "\n"
        want[name][p] = dict(zip(labels, floats(v)))
    if n > 1 and c.v(False, True):  # more pairs than fit in one line
        text = text + t0 + "*         " + "       ".join([a.ljust(2) + " -" + b for a, b in (("Mn", "Mn"), ("O", "Mn"))]) + "                    *\n"
        for p in list(want[name]):
            v = c.rs(2, 2, 5, "")
            text = text + t0 + "* " + pad(p, 4) + "     " + "    ".join(v) + "   A        * <--   " + typ + "\n"
            want[name][p].update({("Mn", "Mn"): float(v[0]), ("O", "Mn"): float(v[1])})
    text = text + st
    p = tag + "_" if tag else ""
    for k in range(c.v(0, 1, 2)):
        text = text + t0 + "*                             Three Body                           *\n"
        text = text + t0 + "*                            H   H   " + "ON"[k] + "                             *\n"
        for lab, u in (("l", "A"), ("c", c.v("", "eV/A^2", "eV")))[:c.n(1, 2)]:
            v = c.r(1, 10, c.v("", "-"))
            text = text + t0 + "*    " + lab + "                      " + v + "                  " + u.ljust(8) + " * <--   SW\n"
            want.setdefault(p + "SW", {}).setdefault(lab, {})["H", "H", "ON"[k]] = float(v)
        text = text + st
    if c.v(False, True):
        text = text + t0 + "*                               SW Units                           *\n"
        want.setdefault(p + "SW", {})
        for lab, u in (("e", "eV"), ("s", c.v("A", "eV/A^2"))):
            v = c.r(1, 10, "")
            text = text + t0 + "*" + pad(lab, 5) + "                      " + v + "                  " + u.ljust(8) + " * <--   SW\n"
            want[p + "SW"][lab] = float(v)
        text = text + st
    if c.v(False, True):
        want[p + "DZ"] = {}
        for lab, u in (("CUT1", "A"), ("A", ""), ("EPS", "eV"))[:c.n(1, 2, 3)]:
            v = c.r(c.v(1, 2), 10, c.v("", "-"))
            text = text + t0 + "*" + pad(lab, 5) + pad(v, 33) + "                  " + u.ljust(8) + " * <--   DZ\n"
            want[p + "DZ"][lab] = float(v)
        text = text + st
    return text + "\n", {"pair_params": [want]}


E01 = {f.__name__: f for f in (
    build_info, run_started, finalisation, efficiency, continuation, title, warning_line, warning_box, memory, cell, supercell, positions,
    positions_labelled, mixture, velocities, spins, mass, quadrupole, pspot_files, quantisation, ps_energy, pspot_report, pspot_debug,
    options, dftd, kpoints_grid, kpoints_list, efield, pressure, symmetry, pair_params)}
