"""Sections of .castep files about the electronic minimisation (see castep.py)."""
from props.castep import C, check, parse  # noqa: F401
from props.common import EXP2, EXP3, floats, pad

BAR = "-" * 72 + " <-- SCF\n"


def scf_header(fermi):
    return BAR + ("SCF loop      Energy           Fermi           Energy gain       Timer   <-- SCF\n"
                  "                               energy          per atom          (sec)   <-- SCF\n" if fermi else
                  "SCF loop      Energy                           Energy gain       Timer   <-- SCF\n"
                  "                                               per atom          (sec)   <-- SCF\n") + BAR


def scf_row(c, label, fermi, time=4):
    """A row and what it says."""
    first = label == "Initial"
    e = c.r(1, 8, exp=EXP3)
    f = c.r(1, 8, exp=EXP3) if fermi else ""
    g = "" if first else c.r(1, 8, exp=EXP3)
    t = c.r(time - 3 if time > 3 else 1, 2, "")
    text = pad(label, 7) + pad(e, 18) + pad(f, 17) + pad(g, 18) + pad(t, 11) + "  <-- SCF\n"
    return text, {"energy": float(e), "fermi_energy": float(f) if fermi else None, "energy_gain": None if first else float(g),
                  "time": float(t)}


def scf_debug(c):
    n = c.pi(1)
    text = "Starting SCF cycle     " + c.d(1) + " of up to    " + c.d(2) + "\n no. bands in each block=" + pad(n, 12) + "\n"
    want = {"no_bands": int(n), "kinetic_eigenvalue": [], "eigenvalue": [], "contributions": {}}
    nk = c.n(2, 1, 3)
    for k in range(nk):
        x = c.r(1, 8, "", EXP2)
        text = text + "Kinetic eigenvalue #" + pad(c.v(str(k + 1), c.pi(3)), 4) + " = " + pad(x, 18) + "\n"
        want["kinetic_eigenvalue"].append(float(x))
    for _ in range(c.n(2, 1, 3)):
        text = text + " Diagonalising expanded subspace\n Copying updated data back\n"
        eig = []
        for k in range(nk):
            a, b, ch = c.r(2, 2), c.r(2, 2), c.r(1, 4, "")
            text = text + "eigenvalue" + pad(c.v(str(k + 1), c.pi(2)), 5) + " init= " + pad(a, 6) + "     fin= " + pad(b, 6) + "     change= " + ch + "\n"
            eig.append({"initial": float(a), "final": float(b), "change": float(ch)})
        text = text + " Checking convergence criteria\n"
        want["eigenvalue"].append(eig)
    f = c.r(1, 4, exp=EXP3)
    text = text + "(Entering electronic_find_fermi_free)\nFermi energy = " + f + " eV [lower bound; range =  1.43E-014 eV]\n"
    want["contributions"]["fermi_energy"] = float(f)
    text = text + "(Leaving electronic_find_fermi_free)\nEnd of SCF cycle energies\n"
    for label, k in (("Exchange-correlation energy      =", "exchange_correlation_energy"), ("+Hartree energy                  =", "hartree_energy"),
                     ("+Local pseudopotential energy    =", "local_pseudopotential_energy"), (None, None),
                     ("Potential energy (total)         =", "potential_energy_total"), ("+Kinetic energy                  =", "kinetic_energy"),
                     ("+Non-local energy                =", "non_local_energy"), ("+Electronic entropy term (-TS)   =", "electronic_entropy_term_ts"),
                     ("+Ewald energy (const)            =", "ewald_energy_const"), ("+non-Coulombic energy (const)    =", "non_coulombic_energy_const"),
                     (None, None), ("Total free energy (E-TS)         =", "total_free_energy_e_ts"),
                     ("(XC correction to eigenvalue sum =", "xc_correction"), ("(Apolar corr to eigenvalue sum   =", "apolar_correction"),
                     ("(Hubbard U correction to eigenvalu", "hubbard_u_correction")):
        if label is None:
            text = text + "----------------------------------\n"
            continue
        x = c.r(c.v(2, 5), 17)
        text = text + label + pad(x, 26) + " eV" + (")" if label[0] == "(" else "") + "\n"
        want["contributions"][k] = float(x)
    return text + "\n", want


def scf_block(c, extras=True):
    """One SCF block: text and its rows."""
    fermi = c.v(True, False)
    tail = c.v("Total energy has converged after 11 SCF iterations.\n", "\n", "") if extras else "\n"
    text, rows = scf_header(fermi), []
    time = c.v(4, 8)
    wide = c.v(False, True)
    dbg = None
    for k in range(c.n(3, 1, 2, 4) if extras else 2):
        if extras and k == 1 and c.v(False, True):
            t, dbg = scf_debug(c)
            text = text + t
        t, w = scf_row(c, "Initial" if k == 0 else str(k + 98 if wide else k + 8 if time == 8 else k), fermi, time)
        if dbg:
            w["debug_info"], dbg = dbg, None
        text = text + t
        after = c.v("", "norm", "unmixed", "constraint", "dipole") if extras and k else ""
        if after == "norm":
            x = c.r(1, 16, "", EXP3)
            text = text + " Norm of density residual is   " + x + "\n"
            w["density_residual"] = float(x)
        elif after == "unmixed":
            text = text + " Density was not mixed in this cycle\n"
            w["density_residual"] = None
        elif after == "constraint":
            x = c.r(1, 16, exp=EXP3)
            text = text + " Total constraint energy:  " + x + " eV\n"
            w["constraint_energy"] = float(x)
        elif after == "dipole":
            x = c.r(2, 5)
            text = text + " Correcting PBC dipole-dipole with self-consistent method: dE = " + pad(x, 13) + " eV\n"
            w["dipole_corr_energy"] = float(x)
        rows.append(w)
    return text + BAR + tail, rows


def scf(c):
    text, want = "", []
    for _ in range(c.n(1, 2)):
        t, rows = scf_block(c)
        text = text + t + "\n"
        want.append(rows)
    return text, {"scf": want}


def final_energies(c, free=True):
    """Energies as printed after an SCF; returns text and values by key."""
    ip = c.v(3, 1, 6)
    e, f, z = c.rs(3, ip, 10)
    text = "\nFinal energy, E             =  " + e + "     eV\n"
    want = {"final_energy": float(e)}
    if free:
        text = text + "Final free energy (E-TS)    =  " + f + "     eV\n(energies not corrected for finite basis set)\n\n"
        text = text + "NB est. 0K energy (E-0.5TS)      =  " + z + "     eV\n\n"
        want.update(free_energy=float(f), est_0K=float(z))
    return text, want


def energies(c):
    want = {}

    def put(d):
        for k, v in d.items():
            want[k] = (*want.get(k, ()), v)
    text = ""
    for _ in range(c.n(1, 2, 0)):
        if c.v(False, True):
            e = c.r(4, 9)
            text = text + "Final energy =  " + e + "     eV\n"
            put({"final_energy": float(e)})
        t, w = final_energies(c, c.v(True, False))
        put(w)
        text = text + t
        if c.v(False, True):
            a, b = c.r(0, 6, "-", EXP2), c.r(4, 9)
            text = text + "(SEDC) Total Energy Correction : " + a + " eV\n\nDispersion corrected final energy* =  " + b + " eV\n"
            put({"sedc_correction": float(a), "disperson_corrected": float(b)})
        if c.v(True, False):
            x = c.r(3, 6)
            text = text + " Total energy corrected for finite basis set =    " + x + " eV\n"
            put({"final_basis_set_corrected": float(x)})
    out = {"energies": want} if want else {}
    if not want or c.v(True, False):
        x = c.r(c.v(1, 3), 6)
        text = text + " For future reference: finite basis dEtot/dlog(Ecut) =      " + x + "eV\n"
        out["dedlne"] = float(x)
    return text, out


def bsc(c):
    n = c.n(3, 2, 10)
    text = "Calculating finite basis set correction with " + pad(str(n), 2) + " cut-off energies.\n"
    scfs, es = [], []
    for k in range(n):
        text = text + "Calculating total energy with cut-off of  " + c.r(3, 3, "") + " eV.\n"
        if k == 0 and c.v(True, False):
            text = text + "Calculating approximate eigenstates for fixed initial Hamiltonian\nCut-off for approx. calculation is   80.000 eV\n"
        t, rows = scf_block(c, False)
        text = text + t
        scfs.append(rows)
        t, w = final_energies(c)
        text = text + t
        es.append(w)
    x = c.r(3, 6)
    text = text + " Total energy corrected for finite basis set =    " + x + " eV\n"
    want = {"scf": scfs[-1], "bsc_scf": scfs[:-1],
            "bsc_energies": {k: tuple(e[k] for e in es[:-1]) for k in es[0]},
            "energies": {k: (es[-1][k],) for k in es[0]} | {"final_basis_set_corrected": (float(x),)}}
    return text, want


def occupancies(c):
    bar = "+--------+-------------------+----------------+                   <- occ\n"
    text, want = "", []
    for _ in range(c.n(1, 2)):
        text = text + "Bands above band " + c.d(1) + " are completely empty                           <- occ\n" \
            "Band energies and occupancies for bands close to Fermi energy     <- occ\n" \
            "Smearing width is  " + c.r(1, 3, "") + " eV                                       <- occ\n" \
            "Spin 1, kpoint ( 0.000000  0.000000  0.000000 ) weight = 1.000000\n" \
            "+--------+-------------------+----------------+\n" \
            "|  Band  |   Eigenvalue      |    Occupancy   |                   <- occ\n" + bar
        rows = []
        for k in range(c.n(2, 0, 1, 3)):
            b, e = c.v(str(k + 1), c.pi(3)), c.r(c.v(0, 1), 6, exp=EXP2)
            o = c.v(c.r(1, 5, ""), c.r(0, 6, "", EXP2), c.r(1, 5, "-"))
            text = text + "|" + pad(b, 6) + "  |" + pad(e, 16) + "   |" + pad(o, 14) + "  |                   <- occ\n"
            rows.append({"band": int(b), "eigenvalue": float(e), "occupancy": float(o)})
        text = text + bar + "Have a nice day.\n"
        want.append(rows)
    return text, {"occupancies": want}


def line_min(c):
    bar = "+--------+--------------------------------------------------------------+<- line\n"
    text, want = "", []
    for _ in range(c.n(1, 2)):
        e, d = c.r(1, 6, exp=EXP3), c.r(1, 3, exp=EXP3)
        text = text + "+------------------- WAVEFUNCTION LINE MINIMISATION --------------------+<- line\n"
        text = text + "| Initial energy = " + e + " eV; initial dE/dstep = " + d + " eV |<- line\n|" + " " * 71 + "|<- line\n"
        text = text + "|            1st step    2nd step    3rd step    4th step    5th step   |<- line\n" + bar
        n = min(c.n(2, 1, 3, 5), 5)
        s, g = c.rs(n, 1, 3, exp=EXP2), c.rs(n, 1, 3, exp=EXP2)
        for name, v in (("step", s), ("gain", g)):
            text = text + "| " + name + "   | "
            for k in range(5):
                text = text + ((" " + v[k] + ("*" if k == n - 1 else " ")) if k < n else " unnecessary") + ""
            text = text + " |<- line\n"
        text = text + bar + " * indicates the final, accepted state (should have the lowest energy)\n"
        want.append({"init_energy": float(e), "init_de_dstep": float(d), "steps": floats(s), "gain": floats(g)})
    return text, {"wvfn_line_min": want}


def solvation(c):
    ip = c.v(2, 1, 5)
    st, sv, sf, a, b, d, p = c.rs(7, ip, 17)
    text = (" ********************** AUTOSOLVATION CALCULATION RESULTS **********************\n Calculation succeeded:\n"
            "  - Vacuum calculation converged to a ground state\n  - Solvent calculation converged to a ground state\n\n"
            " Total energy in solvent          =" + pad(st, 28) + " eV\n -Total energy in vacuum          =" + pad(sv, 28) + " eV\n"
            " ----------------------------------\n Free energy of solvation         =" + pad(sf, 28) + " eV\n\n")
    want = {"total_energy_in_solvent": float(st), "total_energy_in_vacuum": float(sv), "free_energy_of_solvation": float(sf)}
    if c.v(True, False):
        text = text + ("  (Apolar cavitation energy       =" + pad(a, 28) + " eV)\n  (Apolar dis-rep energy          =" + pad(b, 28) + " eV)\n"
                       "  (Total apolar solvation energy  =" + pad(d, 28) + " eV)\n  (Total polar solvation energy   =" + pad(p, 28) + " eV)\n")
        want.update(apolar_cavitation_energy=float(a), apolar_dis_rep_energy=float(b), total_apolar_solvation_energy=float(d),
                    total_polar_solvation_energy=float(p))
    return text + " " + "*" * 79 + "\n", {"autosolvation": want}


def solvation_energy(c):
    x = c.r(c.v(1, 3), 17)
    return " Free energy of solvation         =" + pad(x, 28) + " eV\n", {"energies": {"solvation": (float(x),)}}


def spin_density(c):
    text, spin, mod = "", [], []
    for _ in range(c.n(1, 2)):
        if c.v(True, False):
            exp = c.v(EXP2, None)
            a, b = c.r(c.v(0, 1, 3), 6, exp=exp), c.r(1, 5, "", c.v(None, EXP2))
            text = text + "Integrated Spin Density     = " + pad(a, 15) + " hbar/2\n"
            text = text + "Integrated |Spin Density|   = " + pad(b, 11) + "     hbar/2\n"
            spin.append(float(a))
            mod.append(float(b))
        else:
            exp = c.v(None, EXP2)
            a, b = c.rs(3, 1, 5, exp=exp), c.rs(3, 1, 5, "", exp)
            text = text + "2*Integrated Spin Density (Sx,Sy,Sz) =          " + "       ".join(a) + "     hbar/2\n"
            text = text + "2*Integrated |Spin Density| (|Sx|,|Sy|,|Sz|) =     " + "        ".join(b) + "     hbar/2\n"
            spin.append(floats(a))
            mod.append(floats(b))
    return text, {"spin": spin, "modspin": mod}


E02 = {f.__name__: f for f in (scf, energies, bsc, occupancies, line_min, solvation, solvation_energy, spin_density)}
