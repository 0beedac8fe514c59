"""Response, phonon, magnetic-resonance and spectroscopy sections of .castep files (see castep.py)."""
from props.castep import atoms, key
from props.common import floats, pad


def mat(c, rows, cols, w, ip, fp, lead=""):
    """Rows of numbers as text and as values."""
    text, vals = "", []
    for _ in range(rows):
        r = c.rs(cols, ip, fp)
        text = text + lead + "".join([pad(x, w) for x in r]) + "\n"
        vals.append(floats(r))
    return text, tuple(vals)


def bars(line, w=76):
    return " +" + line.ljust(w) + "+\n"


DOTS = " + " + "." * 74 + " +\n"
DASH = " + " + "-" * 74 + " +\n"


FORMS = ("ir", "plain", "raman", "bare", "ir_bare", "raman_flag")


def phonons(c, form=None):
    nq = c.n(2, 1, 3)
    text = " " + "=" * 78 + "\n" + bars("Vibrational Frequencies".center(76)) + bars("-----------------------".center(76)) + bars("")
    text = text + bars(" Performing frequency calculation at" + pad(c.pi(1), 3) + " wavevectors (q-pts)") + " + " + "=" * 74 + " +\n" + bars("") + bars("")
    out = []
    form = form or c.v(*FORMS)
    same = c.v(False, True)
    first = None
    for q in range(nq):
        qp = c.rs(3, 1, 6)
        if same and first is not None:
            qp = first
        first = qp
        text = text + DASH + bars("  q-pt=" + pad(str(q + 1) if q else c.pi(c.v(1, 5)), 5) + " (" + "".join([pad(x, 10) for x in qp]) + ")     " + c.r(1, 10, "") + " ")
        if c.v(False, True):
            text = text + bars("  q->0 along (" + "".join([pad(x, 10) for x in c.rs(3, 1, 6)]) + ")")
        text = text + DASH
        if c.v(True, False):
            text = text + bars("  Acoustic sum rule correction <" + pad(c.r(3, 6, ""), 11) + " cm-1 applied")
        text = text + bars("     N      Frequency irrep.    ir intensity active            raman active ")
        text = text + bars("                (cm-1)         ((D/A)**2/amu)                               ") + bars("")
        n = c.n(2, 1, 3)
        w = {"qpt": floats(qp)}
        cols = {k: [] for k in ("N", "frequency", "irrep", "ir_intensity", "ir_active", "raman_intensity", "raman_active")}
        fip = c.v(3, 1, 5)
        iip = c.v(1, 3)
        for k in range(n):
            no = c.v(str(k + 1), c.pi(3)) if k == 0 else str(k + 1)
            fr = c.r(fip, 6)
            line = pad(no, 6) + pad(fr, 16)
            cols["N"].append(int(no))
            cols["frequency"].append(float(fr))
            if form not in ("bare", "ir_bare"):
                ir = c.S.chars(1, c.v("lower", "ABCDEFGHIJKLMNOPQRSTUV"))
                line = line + "   " + ir
                cols["irrep"].append(ir)
            else:
                line = line + "    "
            if form in ("ir", "raman", "ir_bare", "raman_flag"):
                ii = c.r(iip, 7, "")
                ia = c.S.chars(1, "YN")
                line = line + pad(ii, 19) + "  " + ia
                cols["ir_intensity"].append(float(ii))
                cols["ir_active"].append(ia)
            if form in ("ir", "raman_flag"):
                ra = c.S.chars(1, "YN")
                line = line + " " * 23 + ra
                cols["raman_active"].append(ra)
            elif form in ("raman", "ir_bare"):
                rn, ra = c.r(iip, 7, ""), c.S.chars(1, "YN")
                line = line + pad(rn, 21) + "  " + ra
                cols["raman_intensity"].append(float(rn))
                cols["raman_active"].append(ra)
            text = text + bars(line)
        w.update({k: tuple(v) if k in ("N", "frequency", "ir_intensity", "raman_intensity") else v for k, v in cols.items() if v})
        if c.v(True, False):
            t, w["char_table"] = char_table(c)
            text = text + t
        out.append(w)
    return text + c.v("", DASH) + " " + "=" * 78 + "\n", {"phonons": out}


def char_table(c):
    text = DOTS + bars("        Character table from group theory analysis of eigenvectors")
    text = text + bars("                           Point Group =" + pad(c.pi(2), 4) + ", " + c.v("Oh", "C2v", "D3d"))
    if c.v(False, True):
        text = text + bars(" (Due to LO/TO splitting this character table may not contain some symmetry")
        text = text + bars("  operations of the full crystallographic point group.  Additional")
    text = text + DOTS
    ops = ["E", "2'", "m_v", "-4"][:c.n(3, 1, 4)]
    text = text + bars("  Rep  Mul |" + "".join([pad(o, 5 if k == 0 else 4) for k, o in enumerate(ops)]))
    text = text + bars("           | " + "-" * (4 * len(ops)))
    rows = []
    for k in range(c.n(2, 1, 3)):
        rep, mul = "abcdefghijkl"[k], c.pi(c.v(1, 2))
        name = c.v("Eu", "", "A2u", "Tg")
        ch = [c.u(1)] + [("-" if k % 2 else "") + c.u(1) for k in range(1, len(ops))]
        text = text + bars(" " + rep + " " + name.ljust(4) + pad(mul, 4) + " |" + pad(ch[0], 5) + "".join([pad(x, 4) for x in ch[1:]]))
        row = {"chars": tuple(zip(ops, [int(x) for x in ch])), "mul": int(mul), "rep": rep}
        if name:
            row["name"] = name
        rows.append(row)
    return text, rows


def sym_analysis(c):
    text, out = "", []
    for _ in range(c.n(1, 2)):
        name, isf = c.v(("Elements of D with same absolute magnitude", False), ("Elements of BEC  with same absolute magnitude", False),
                        ("   Phase of Born Effective Charge elements", True))
        text = text + "  " + "*" * 72 + "\n  Phonon Symmetry Analysis: " + name + "\n  " + "*" * 72 + "\n"
        rows = []
        for _ in range(c.n(3, 1, 2)):
            v = [c.r(1, 1) if isf else c.u(c.v(1, 3)) for _ in range(3)]
            text = text + "".join([pad(x, 6) for x in v]) + "\n"
            rows.append(tuple((float if isf else int)(x) for x in v))
        out.append({"title": " ".join(name.split()), "mat": tuple(rows)})
        text = text + "\n"
    return text, {"phonon_symmetry_analysis": out}


def thermodynamics(c):
    zp = c.r(c.v(1, 3), 6)
    text = " " + "=" * 69 + "\n                             Thermodynamics\n                             ==============\n\n"
    text = text + "            Zero-point energy =" + pad(zp, 17) + "  eV\n " + "-" * 78 + "\n"
    text = text + "       T(K)        E(eV)           F(eV)         S(J/mol/K)      Cv(J/mol/K)\n " + "-" * 78 + "\n"
    cols = {k: [] for k in ("t", "e", "f", "s", "cv")}
    for _ in range(c.n(2, 1, 3)):
        tip = c.v(3, 1, 4)
        row = [c.r(tip, 1, ""), c.r(c.v(1, 4), 6), c.r(1, 6), c.r(c.v(2, 5), 3), c.r(2, 3)]
        text = text + "".join([pad(x, w) for x, w in zip(row, (10, 16, 16, 16, 16))]) + "\n"
        for k, x in zip(cols, row):
            cols[k].append(float(x))
    return (text + " " + "-" * 78 + "\n\n " + "=" * 78 + "\n",
            {"thermodynamics": {"zero_point_energy": float(zp), **{k: tuple(v) for k, v in cols.items()}}})


def displacements(c):
    text = " " + "=" * 78 + "\n                      Atomic Displacement Parameters (A**2)\n                      ==============================\n\n"
    text = text + " " + "-" * 78 + "\n      T(K)  Ion        U11       U22       U33       U23       U31       U12\n " + "-" * 78 + "\n"
    want = {}
    at = atoms(c, c.n(2, 1), labels=False)
    for t in [c.v("0.0", "0.00", "007.50"), "100.0", "1050.0"][:c.n(2, 1, 3)]:
        want[t] = {}
        for a in at:
            v = c.rs(6, 1, 6)
            text = text + pad(t, 10) + "  " + a[0] + " " + a[1] + "  " + "".join([pad(x, 10) for x in v]) + "\n"
            want[t][key(a)] = floats(v)
    return text + " " + "-" * 78 + "\n\n", {"atomic_displacements": want}


def dynamical(c):
    n = c.n(1, 2)
    re, im, t = [], [], "  " + "-" * 114 + "\n            Dynamical matrix\n"
    for part, acc in (("real part", re), ("imaginary part", im)):
        t = t + " Ion XYZ        " + part + "  ((cm-1)**2)\n"
        for i in range(n):
            for x in "123":
                v = c.rs(3 * n, c.v(2, 1, 10), 6)
                t = t + pad(c.v(str(i + 1), "123"), 4) + pad(x, 4) + "".join([pad(y, 18) for y in v]) + "\n"
                acc.append(v)
    return (t + "  " + "-" * 114 + "\n",
            {"dynamical_matrix": tuple(tuple(complex(float(a), float(b)) for a, b in zip(r, i)) for r, i in zip(re, im))})


def permittivity(c):
    two = c.v(True, False)
    text = " " + "=" * 79 + "\n        Optical Permittivity (f->infinity)" + ("             DC Permittivity (f=0)" if two else "") + "\n"
    text = text + "        ----------------------------------" + ("             ---------------------" if two else "") + "\n"
    t, v = mat(c, 3, 6 if two else 3, 16, c.v(1, 4), 5)
    want = {"optical_permittivity": tuple(r[:3] for r in v)}
    if two:
        want["dc_permittivity"] = tuple(r[3:] for r in v)
    return text + t + " " + "=" * 79 + "\n", want


def polarisability(c):
    two = c.v(True, False)
    text = "  " + "=" * 79 + "\n                                    Polarisabilit" + ("ies" if two else "y") + " (A**3)\n"
    text = text + "                Optical (f->infinity)" + ("                       Static  (f=0)" if two else "") + "\n"
    text = text + "                ---------------------" + ("                       -------------" if two else "") + "\n"
    t, v = mat(c, 3, 6 if two else 3, 16, c.v(2, 5), 5)
    want = {"optical_polarisability": tuple(r[:3] for r in v)}
    if two:
        want["static_polarisability"] = tuple(r[3:] for r in v)
    return text + t + " " + "=" * 79 + "\n", want


def nlo(c):
    t, v = mat(c, 3, 6, 12, c.v(2, 4), 5)
    return (" " + "=" * 75 + "\n      Nonlinear Optical Susceptibility (pm/V)\n      ---------------------------------------\n" + t + " " + "=" * 75 + "\n",
            {"nlo": v})


def raman(c):
    n = c.n(2, 1, 3)
    text = " " + "=" * 78 + "\n +                      Raman Susceptibility Tensors ((A/amu)*0.5)            +\n +" + "-" * 76 + "+\n"
    modes = []
    for k in range(n):
        no = c.v(str(k + 1), c.pi(3))
        text = text + bars(" Mode number:" + pad(no, 4) + " Raman tensor       Depolarisation Ratio")
        ip = c.v(1, 3)
        m = [c.rs(3, ip, 4) for _ in range(3)]
        dep = c.r(1, 6, "") if c.v(True, False) else None
        for i, r in enumerate(m):
            text = text + bars(" " + "".join([pad(x, 10) for x in r]) + (pad(dep, 14) if i == 0 and dep is not None else ""))
        text = text + bars("")
        t = [floats(r) for r in m]
        modes.append({"tensor": tuple(t), "depolarisation": None if dep is None else float(dep),
                      "trace": t[0][0] + t[1][1] + t[2][2],
                      "ii": (t[0][0] * t[1][1] + t[0][0] * t[2][2] + t[1][1] * t[2][2]
                             - t[0][1] * t[1][0] - t[0][2] * t[2][0] - t[1][2] * t[2][1])})
    return text + " +" + "-" * 76 + "+\n\n", {"raman": [modes]}


def band_structure(c):
    text = "  + " + "=" * 65 + " +\n  +" + " " * 67 + "+\n"
    if c.v(True, False):
        text = text + "  +     Band Structure Calculation: Progress report on root process   +\n  +" + " " * 67 + "+\n"
        text = text + "  +   Spin= 1 of  1, K-point=   1 of" + pad(c.pi(2), 5) + " completed, Time:" + pad(c.r(2, 2, ""), 9) + "s. +\n"
    else:
        text = text + "  +                B A N D   S T R U C T U R E                        +\n"
    text = text + "  +" + " " * 67 + "+\n  + " + "=" * 65 + " +\n  +                       Electronic energies                         +\n"
    text = text + "  +   Band number   Energy in eV                                      +\n  + " + "=" * 65 + " +\n  +" + " " * 67 + "+\n"
    out = []
    nb = c.n(2, 1, 3)
    for k in range(c.n(2, 1, 3)):
        sp, kp, gp = c.v(c.S.chars(1, "12"), "2"), c.v(str(k + 1), c.pi(4)), c.v("1", c.pi(2))
        kv = c.rs(3, 1, 6)
        text = text + "  + " + "-" * 65 + " +\n  +  Spin=" + sp + " kpt=" + pad(kp, 5) + " (" + "".join([pad(x, 10) for x in kv]) + ") kpt-group=" + pad(gp, 3) + "  +\n"
        text = text + "  + " + "-" * 65 + " +\n  +" + " " * 67 + "+\n"
        bands, es = [], []
        for b in range(nb):
            no, e = (str(b + 1) if b else c.v("1", c.pi(4))), c.r(c.v(1, 3), 6)
            text = text + "  +" + pad(no, 12) + pad(e, 16) + " " * 39 + "+\n"
            bands.append(int(no))
            es.append(float(e))
        out.append({"spin": int(sp), "kx": float(kv[0]), "ky": float(kv[1]), "kz": float(kv[2]), "kpgrp": int(gp),
                    "band": tuple(bands), "energy": tuple(es)})
    return text + "  " + "=" * 69 + "\n", {"bs": out}


def dipole(c):
    w = c.v(1, 3)
    a, b = c.r(w, 4), c.r(w, 4)
    ce, cp, mag, d = c.rs(3, w, 4), c.rs(3, w, 4), c.r(2, 5, ""), c.rs(3, 1, 6)
    text = "  " + "=" * 69 + "\n  +" + " " * 67 + "+\n  +   D I P O L E   O F   M O L E C U L E   I N   S U P E R C E L L   +\n"
    text = text + "  +      Cite: S. J. Clark, et al. Europhys Lett 44, 578 (1998)       +\n  +" + " " * 67 + "+\n"
    text = text + "  +      WARNING: This is only correct for isolated molecules         +\n"
    text = text + "  +    Total  ionic  charge in supercell:" + pad(a, 13) + " electrons      +\n"
    text = text + "  +    Total valence charge in supercell:" + pad(b, 13) + " electrons      +\n  +" + " " * 67 + "+\n"
    text = text + "  +   Centre of electronic charge for system:                         +\n  +" + "".join([pad(x, 13) for x in ce]) + "       ANG             +\n"
    text = text + "  +   Centre of positive ionic charges:                               +\n  +" + "".join([pad(x, 13) for x in cp]) + "       ANG             +\n"
    text = text + "  +  Magnitude of Dipole =" + pad(mag, 10) + "  DEBYE                           +\n"
    text = text + "  +  Direction of Dipole =" + "".join([pad(x, 12) for x in d]) + "       +\n  +" + " " * 67 + "+\n  " + "=" * 69 + "\n"
    return text, {"molecular_dipole": {"total_ionic": float(a), "total_valence": float(b), "centre_electronic": floats(ce),
                                       "centre_positive": floats(cp), "dipole_magnitude": float(mag), "dipole_direction": floats(d)}}


def elf(c):
    text, v = "      ELF grid sample\n-----------------------\n", []
    for k in range(c.n(3, 1, 4)):
        x = c.r(1, 6, c.v("", "sym"))
        text = text + " ELF" + pad(c.v(str(k + 1), c.pi(6)), 9) + " " + x + "\n"
        v.append(float(x))
    return text + "-----------------------\n", {"elf": v}


def magres_table(c, title, heads, task, cols):
    """cols: list of (name, width, integer digits, decimals, exponent, N/A allowed)."""
    text = "  " + "=" * 80 + "\n  |" + title.center(78) + "|\n  |" + "-" * 78 + "|\n"
    for h in heads:
        text = text + "  |" + h.ljust(78) + "|\n"
    want = {"task": task}
    for a in atoms(c, c.n(2, 1, 3), labels=False):
        line, w = "    " + a[0].ljust(9) + pad(a[1], 12), {}
        for name, width, ip, fp, exp, na in cols:
            if na and c.v(False, True):
                line, w[name] = line + pad("N/A", width), None
            else:
                x = c.r(c.v(ip, 4) if exp is None and ip > 1 else ip, fp, exp=exp)
                line, w[name] = line + pad(x, width), float(x)
        text = text + "  |" + line.ljust(78) + "|\n"
        want[key(a)] = w
    return text + "  " + "=" * 80 + "\n", {"magres": [want]}


E2 = ("E", "sym", 2)


def shielding(c):
    return magres_table(c, "Chemical Shielding Tensor", ["     Nucleus                            Shielding tensor",
                        "  Species            Ion            Iso(ppm)   Aniso(ppm)  Asym"], "Chemical Shielding",
                        [("cs_iso", 16, 3, 2, None, 0), ("cs_aniso", 11, 3, 2, None, 0), ("asym", 10, 1, 2, None, 1)])


def shielding_efg(c):
    return magres_table(c, "Chemical Shielding and Electric Field Gradient Tensors", ["     Nucleus                       Shielding tensor             EFG Tensor",
                        "    Species            Ion    Iso(ppm)   Aniso(ppm)  Asym    Cq(MHz)    Eta"], "Chemical Shielding and Electric Field Gradient",
                        [("cs_iso", 12, 2, 2, None, 0), ("cs_aniso", 11, 2, 2, None, 0), ("asym", 10, 1, 2, None, 1),
                         ("cq", 12, 1, 3, E2, 0), ("eta", 7, 1, 2, None, 0)])


def efg(c):
    return magres_table(c, "Electric Field Gradient Tensor", ["     Nucleus                              EFG tensor",
                        "    Species            Ion             Cq(MHz)        Asym"], "Electric Field Gradient",
                        [("cq", 22, 1, 3, E2, 0), ("asym", 12, 1, 2, None, 1)])


def jcoupling(c):
    iso = c.v("Isotropic", "Anisotropic")
    text = "  " + "=" * 82 + "\n  |" + (iso + " J-coupling").center(80) + "|\n  |" + "-" * 80 + "|\n  |     Nucleus                               J-coupling values                    |\n"
    text = text + "  |  Species          Ion     FC           SD         PARA       DIA       TOT(Hz) |\n"
    first = atoms(c, 3, labels=False)
    if c.v(True, False):
        text = text + "  |** C                 1     --.--       --.--       --.--      --.--       --.-- |\n"
    want = {"task": "(An)Isotropic J-coupling"}
    for a in first[:c.n(2, 1, 3)]:
        w = c.v(2, 4)
        v = [c.r(w, 2) for _ in range(5)]
        text = text + "  |   " + a[0].ljust(9) + pad(a[1], 11) + "".join([pad(x, y) for x, y in zip(v, (10, 12, 12, 11, 12))]) + " |\n"
        want[key(a)] = dict(zip(("fermi_contact", "spin_dipolar", "paramagnetic", "diamagnetic", "total"), floats(v)))
    return (text + "  |" + " " * 80 + "|\n  |** Signifies Perturbing Nucleus A of coupling J_AB                              |\n  " + "=" * 82 + "\n",
            {"magres": [want]})


def hyperfine(c):
    return magres_table(c, "Hyperfine Tensor", ["     Nucleus                         Hyperfine tensor", "    Species          Ion                 Iso(MHz)"],
                        "Hyperfine", [("hf_iso", 28, 1, 3, E2, 0)])


def tddft(c):
    b = "  + " + "=" * 65 + " +TDDFT\n"
    text = b + "  +                     TDDFT excitation energies                     +TDDFT\n  +                     -------------------------                     +TDDFT\n"
    text = text + "  +   State number         Energy in   eV     Estimated error         +TDDFT\n" + b + "  +" + " " * 67 + "+TDDFT\n"
    out = []
    for k in range(c.n(2, 1, 3)):
        e, er = c.r(c.v(1, 3), 15), c.r(1, 10, "", exp=("E", "sym", 2))
        ty = c.v("Singlet", "spurious", "Triplet")
        text = text + "  +" + pad(c.v(str(k + 1), c.pi(3)), 10) + pad(e, 22) + pad(er, 19) + "     " + ty.ljust(11) + " +TDDFT\n"
        out.append({"energy": float(e), "error": float(er), "type": ty})
    return (text + "  +" + " " * 67 + "+TDDFT\n" + b + "  +  TDDFT calculation time:" + pad(c.r(3, 2, ""), 11) + " " * 31 + "+TDDFT\n" + b, {"tddft": out})


def elastic_matrix(c):
    title, k, ip, fp = c.v(("Elastic Constants Tensor (GPa)", "elastic_constants", 3, 6), ("Compliance Matrix (GPa^-1)", "compliance_matrix", 1, 9))
    t, v = mat(c, c.v(6, 3), 6, 14, c.v(ip, 1), fp)
    return (" " + "=" * 79 + "\n" + title.center(80) + "\n " + "-" * 79 + "\n" + t + " " + "=" * 79 + "\n", {"elastic": {k: v}})


def contributions(c):
    text, want = "", {}
    for name in ["Ewald Contribution", "<psi^1|H^(1)|psi^0> Contribution", "Total Contribution", "Local pseudopotential Contribution"][c.v(0, 1, 2, 3):][:c.n(2, 1)]:
        t, v = mat(c, c.v(6, 3), 6, 17, c.v(2, 5), 8)
        text = text + name + " ::\n" + t + "\n"
        want[name] = v
    return text, {"elastic": want}


def elastic_properties(c):
    bar = " " + "-" * 79 + "\n"
    y, p, b, s, lo, tr = c.rs(3, 3, 6), c.rs(6, 1, 6), c.rs(3, 3, 6), c.rs(3, c.v(2, 4), 6), c.r(2, 6), c.r(2, 6)
    sp = [c.rs(3, 2, 6) for _ in range(3)]
    text = " " + "=" * 79 + "\n                               Elastic Properties\n" + bar + "                            x              y              z\n" + bar
    text = text + "  Young's Modulus ::" + pad(y[0], 15) + pad(y[1], 15) + pad(y[2], 15) + "     (GPa)\n\n"
    text = text + bar + "                        xy        xz        yx        yz        zx        zy\n" + bar + "  Poisson Ratios  ::" + "".join([pad(x, 10) for x in p]) + "\n\n"
    text = text + bar + "                          Voigt          Reuss          Hill\n" + bar
    text = text + "   Bulk Modulus   ::" + "".join([pad(x, 15) for x in b]) + "     (GPa)\n  Shear Modulus   ::" + "".join([pad(x, 15) for x in s]) + "     (GPa)\n\n"
    text = text + bar + "                                 Speed of Sound\n" + bar + "                            x              y              z\n" + bar
    for lab, r in zip(("                  x", "  (Anisotropic)   y", "                  z"), sp):
        text = text + lab + "".join([pad(x, 16) for x in r]) + "     (A/ps)\n"
    text = text + "\n Assuming Isotropic material\n  Longitudinal waves ::" + pad(lo, 14) + "   (A/ps)\n   Transverse waves  ::" + pad(tr, 14) + "   (A/ps)\n " + "=" * 79 + "\n"
    return text, {"elastic": {"young_s_modulus": floats(y), "poisson_ratios": floats(p), "bulk_modulus": floats(b), "shear_modulus": floats(s),
                              "speed_of_sound": tuple(floats(r) for r in sp), "longitudinal_waves": float(lo), "transverse_waves": float(tr)}}


EQ = "=" * 85 + "\n"


def berry(c):
    ip = c.v(1, 3)
    text = EQ + " Polarisation (C/m^2) in Recip Lattice Basis defined on range [-Quantum/2:Quantum/2]\n"
    text = text + "              Direction                   Electronic   Ionic    Total    (Quantum)\n" + EQ
    pol = {}
    for g, d in zip("123", (("1.0000", "0.0000", "0.0000"), ("0.0000", "1.0000", "0.0000"), ("0.0000", "-.7071", "0.7071"))):
        e, i, t, q = c.r(ip, 4), c.r(ip, 4), c.r(ip, 4), c.r(1, 4, "")
        text = text + " G_" + g + ":  (" + ",".join([pad(x, 8) for x in d]) + "   )  " + pad(e, 10) + pad(i, 10) + pad(t, 10) + " (" + pad(q, 10) + " )\n"
        pol[floats(d)] = {"elec": float(e), "ionic": float(i), "total": float(t), "quantum": float(q), "units": "C/m^2"}
    want = {"polarisation": pol}
    text = text + EQ + "\n"
    for u in ("e/bohr^2", "C/m^2"):
        text = text + EQ
        for nm in ("Ionic", "Elec ", "Total"):
            v = c.rs(3, ip, 6)
            text = text + " " + nm + " Polarisation (Cartesian Basis):" + "".join([pad(x, 12) for x in v]) + " (" + u + ")\n"
            want[nm.strip().lower()] = {"units": u, "val": floats(v)}
        text = text + EQ + "\n"
    return text, {"berry_phase": want}


def berry_verbose(c):
    text = EQ + "             Ionic contribution to polarisation (phase) [-1:1]\n" + EQ
    text = text + "ni nsp  Zion     frac_a1     frac_a2     frac_a3      pol_G1      pol_G2     pol_G3\n"
    ions = {}
    for ni, ns in [("1", "1"), ("2", "1"), ("1", "2")][:c.n(3, 1)]:
        co, po = c.rs(3, 1, 6), c.rs(3, 1, 6)
        text = text + pad(ni, 3) + " " + ns + pad(c.r(2, 2, ""), 7) + "".join([pad(x, 12) for x in [*co, *po]]) + "\n"
        ions[(int(ns), int(ni))] = {"coords": floats(co), "polarisation": floats(po)}
    tot = c.rs(3, 1, 6)
    text = text + " Total ionic polarisation (phase [-1:1])   " + "".join([pad(x, 12) for x in tot]) + "\n" + EQ + "\n"
    want = {"ionic_contribution_to_polarisation": {"units": "phase", "total": floats(tot), "ions": ions}}

    def three():
        out, d = "", {}
        for nm in ("Electronic", "Ionic", "Total"):
            v = c.rs(3, c.v(1, 3), 6)
            out = out + (nm + " polarisation").ljust(23) + "".join([pad(x, 12) for x in v]) + "\n"
            d[nm] = floats(v)
        return out, d
    t1, ph = three()
    t2, va = three()
    t3, _ = three()
    t4, vp = three()
    text = text + EQ + "             Polarisation (phase) [-1:1] in Recip Lattice Basis (G_1, G_2, G_3)\n" + EQ + t1 + EQ + "\n"
    text = text + EQ + "             Polarisation (e bohr)       in Recip Lattice Basis (G_1, G_2, G_3)\n" + EQ + t2 + EQ + "\n"
    text = text + EQ + "      Volume Polarisation (e /bohr^2)    in Recip Lattice Basis (G_1, G_2, G_3)\n" + EQ + t3 + EQ + "\n"
    text = text + EQ + "      Volume Polarisation (C/m^2)        in Recip Lattice Basis (G_1, G_2, G_3)\n" + EQ + t4 + EQ + "\n"
    want["volume_polarisation"] = {"units": "C/m^2", **vp}
    t5, w5 = berry(c)
    w5 = w5["berry_phase"]
    w5["polarisation"].update({"units": "e bohr", "phase": ph, "val": va})
    want.update(w5)
    return text + t5, {"berry_phase": want}


def delta_scf(c):
    text = "               Calculating MODOS weights\n +-------------------INPUT PARAMETERS-------------------+\n"
    want = {"states": []}
    if c.v(True, False):
        text = text + "Taking band from model   N2-base.check\n"
        want["file"] = "N2-base.check"
    n = c.n(2, 1)
    bands, pops = ["5", c.v("6", "15"), *[str(k + 20) for k in range(n - 2)]], [c.r(1, 6, "") for _ in range(max(n, 2))]
    spins = [c.S.chars(1, "12") for _ in range(max(n, 2))]
    if c.v(False, True):
        bands, spins = ["5", "5"], ["1", "2"]
    for k in range(n):
        text = text + "  MODOS state               " + str(k + 1) + "\n  MODOS band  nr." + pad(bands[k], 12) + "\n  MODOS band has spin" + pad(spins[k], 8) + "\n"
    written = c.v(True, False)
    for k in range(n):
        text = text + "|DeltaSCF| Population of state:" + pad(bands[k], 6) + pad(spins[k], 6) + pad(pops[k], 11) + "\n"
        s = {"band": int(bands[k]), "spin": int(spins[k]), "pop": float(pops[k])}
        if written:
            s["file"] = "N2-modos.modos_state_" + bands[k] + "_" + spins[k]
        want["states"].append(s)
    if written:
        for s in want["states"]:
            text = text + " Writing file   " + s["file"] + "\n"
    return text + "\n", {"delta_scf": want}


E04 = {f.__name__: f for f in (phonons, sym_analysis, thermodynamics, displacements, dynamical, permittivity, polarisability, nlo, raman, band_structure,
                              dipole, elf, shielding, shielding_efg, efg, jcoupling, hyperfine, tddft, elastic_matrix, contributions,
                              elastic_properties, berry, berry_verbose, delta_scf)}
