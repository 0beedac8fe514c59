"""Sections of .castep files giving a value per atom or bond (see castep.py)."""
from props.castep import atoms, col, key
from props.common import EXP3, floats, pad


def forces_block(c, name, pre="", small=False):
    """One table of forces and its rows."""
    n = c.n(2, 1, 3)
    tag = c.v("", "(cons'd)", " (mixed)", "mid")
    ip = c.v(1, 3, 5)
    title = " " + name + " "
    text = " " + title.center(84, "*") + "\n *" + " " * 82 + "*\n *                           Cartesian components (eV/A)                            *\n"
    text = text + " * " + "-" * 80 + " *\n *                         x                    y                    z              *\n *" + " " * 82 + "*\n"
    want = {}
    for k, a in enumerate(atoms(c, n)):
        f = c.rs(3, ip, 5)
        t = [tag] * 3
        if tag == "mid":
            t = ["", "(cons'd)", ""]
        text = text + " * " + a[0].ljust(12) + pad(a[1], 5)
        for x, y in zip(f, t):
            text = text + pad(x, 13) + y.ljust(8)
        text = text + " *\n"
        want[key(a)] = floats(f)
    return text + " *" + " " * 82 + "*\n " + "*" * 84 + "\n", want


def forces(c):
    text, want = "", {}
    for k in range(c.n(1, 2, 3)):
        name, kind = c.v(("Forces", "non_descript"), ("Symmetrised Forces", "symmetrised"), ("Constrained Forces", "constrained"),
                         ("Unconstrained Forces", "unconstrained"), ("Constrained Symmetrised Forces", "constrained_symmetrised"))
        t, w = forces_block(c, name)
        text = text + t + "\n"
        want[kind] = (*want.get(kind, ()), w)
    return text, {"forces": want}


def com_force(c):
    f = c.rs(3, 1, 16, exp=EXP3)
    text = "firstd_calculate: removing force on centre of mass\n"
    for ax, x in zip("xyz", f):
        text = text + " dF" + ax + ":  " + x + " eV/A\n"
    return text + "\n", {"forces": {"com_force_removal": (floats(f),)}}


def stress(c):
    text, want = "", {}
    for k in range(c.n(1, 2)):
        name, kind = c.v(("Stress Tensor", "non_descript"), ("Symmetrised Stress Tensor", "symmetrised"), ("Constrained Stress Tensor", "constrained"))
        v = c.rs(6, c.v(1, 5), 6)
        rows = [(v[0], v[1], v[2]), (v[1], v[3], v[4]), (v[2], v[4], v[5])]
        text = text + " " + (" " + name + " ").center(49, "*") + "\n *" + " " * 47 + "*\n *          Cartesian components (GPa)           *\n"
        text = text + " * " + "-" * 45 + " *\n *             x             y             z     *\n *" + " " * 47 + "*\n"
        for ax, row in zip("xyz", rows):
            text = text + " *  " + ax + pad(row[0], 14) + pad(row[1], 14) + pad(row[2], 14) + "  *\n"
        text = text + " *" + " " * 47 + "*\n *  Pressure:" + pad(c.r(1, 4), 10) + "                          *\n *" + " " * 47 + "*\n " + "*" * 49 + "\n\n"
        want[kind] = (*want.get(kind, ()), floats(v))
    return text, {"stresses": want}


def mulliken(c):
    spin, sep = c.v((False, False), (True, True), (True, False))
    n = c.n(2, 1, 3)
    text = "     Atomic Populations (Mulliken)\n     -----------------------------\n"
    text = text + "Species          Ion " + ("Spin " if sep else "") + "     s       p       d       f      Total   Charge(e)" + ("   Spin(hbar/2)" if spin else "")
    text = text + "\n" + "=" * 94 + "\n"
    want = {}
    for a in atoms(c, n):
        up, ch, sp = [c.r(c.v(1, 3), 3, "") for _ in range(5)], c.r(1, 3), c.r(1, 3)
        text = text + "  " + a[0].ljust(11) + pad(a[1], 6) + ("   up:  " if sep else "  ") + "".join([pad(x, 8) for x in up]) + pad(ch, 10)
        text = text + (pad(sp, 13) if spin else "") + "\n"
        w = {"spin_sep": sep, "charge": float(ch), "spin": float(sp) if spin else None}
        if sep:
            dn = [c.r(1, 3, "") for _ in range(5)]
            text = text + "  " + " " * 11 + pad(a[1], 6) + "   dn:  " + "".join([pad(x, 8) for x in dn]) + "\n"
            w |= {"up_" + k: float(x) for k, x in zip(("s", "p", "d", "f", "total"), up)}
            w |= {"dn_" + k: float(x) for k, x in zip(("s", "p", "d", "f", "total"), dn)}
            w["total"] = float(up[4]) + float(dn[4])
        else:
            w |= {k: float(x) for k, x in zip(("s", "p", "d", "f", "total"), up)}
        w["spec"] = None
        want[key(a)] = w
    for w in want.values():
        del w["spec"]
    return text + "=" * 94 + "\n", {"mulliken_popn": want}


def orbital(c):
    text = "            Orbital Populations\n     Ion    Atom   Orbital             Charge\n  -------------------------------------------\n"
    want = {}
    for a in atoms(c, c.n(2, 1, 3)):
        orbs = c.v(("S", "Px", "Py", "Pz"), ("S",), ("Dzz", "Dzy", "Dzx", "Dxx-yy", "Dxy"), ("Fxxx", "Fxyz", "Fz(xx-yy)"))
        w = {}
        for o in orbs:
            x = c.r(c.v(1, 2), 3, c.v("", "-"))
            text = text + pad(a[0], 7) + pad(a[1], 6) + "      " + o.ljust(12) + pad(x, 14) + "\n"
            w[o] = float(x)
        want[key(a)] = w
    t = c.r(c.v(2, 4), 3, "")
    want["total"] = float(t)
    text = text + "  -------------------------------------------\n                           Total:" + pad(t, 12) + "\n"
    return text + "  -------------------------------------------\nThe total projected population is   " + t + "   0.000\n", {"orbital_popn": want}


def bonds(c):
    spin = c.v(False, True)
    text = ("                 Bond                   Population" + ("        Spin" if spin else "") + "      Length (A)\n" + "=" * (80 if spin else 70) + "\n")
    want = {}
    ats = atoms(c, 3)
    pairs = [(0, 1), (1, 2), (0, 2)][:c.n(2, 1, 3)]
    for i, j in pairs:
        p, s, ln = c.r(c.v(1, 2), 2, c.v("", "-")), c.r(1, 2, c.v("", "-")), c.r(1, 5, "")
        a, b = ats[i], (ats[j][0], c.v(ats[j][1], c.pi(2), c.pi(4)))
        w = {"population": float(p), "length": float(ln)}
        text = text + pad(a[0], 16) + c.v(" ", "  ") + a[1] + " -- " + b[0] + c.v(" ", "  ") + b[1].ljust(19) + pad(p, 9)
        if spin:
            text = text + pad(s, 13)
            w["spin"] = float(s)
        text = text + pad(ln, 17) + "\n"
        want[key(a), key(b)] = w
    return text + "=" * (80 if spin else 70) + "\n", {"bonds": want}


def born(c):
    text = " ===================================================\n                   Born Effective Charges\n                   ----------------------\n"
    want = {}
    for a in atoms(c, c.n(2, 1, 3), labels=False):
        lab = c.v("", "lab_1", "C-1.a'")
        m = [c.rs(3, c.v(1, 3), 5) for _ in range(3)]
        text = text + "   " + a[0].ljust(5) + pad(a[1], 6) + " "
        for k, row in enumerate(m):
            text = text + ("" if k == 0 else " " * 15) + "".join([pad(x, 12) for x in row]) + (" ID=" + lab if lab and k == 0 else "") + "\n"
        want[(a[0] + (" [" + lab + "]" if lab else ""), int(a[1]))] = tuple(floats(r) for r in m)
    return text + " ===================================================\n", {"born": [want]}


def hirshfeld(c):
    text = "     Hirshfeld Analysis\n     ------------------\nSpecies   Ion     Hirshfeld Charge (e)\n======================================\n"
    want = {}
    for a in atoms(c, c.n(2, 1, 3)):
        x = c.r(c.v(1, 2), 2)
        text = text + "  " + a[0].ljust(5) + pad(a[1], 6) + pad(x, 20) + "\n"
        want[key(a)] = float(x)
    return text + "======================================\n", {"hirshfeld": want}


E03 = {f.__name__: f for f in (forces, com_force, stress, mulliken, orbital, bonds, born, hirshfeld)}
