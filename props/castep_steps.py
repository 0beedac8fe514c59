"""Molecular dynamics, geometry optimisation and transition-state sections of .castep files (see castep.py)."""
from props.castep import C, E01, atoms, key
from props.castep_atoms import E03
from props.castep_scf import E02
from props.common import EXP3, floats, pad

EQ = "=" * 80 + "\n"
DASH = "-" * 80 + "\n"


def md_data(c):
    b = "            x" + " " * 60 + "x\n"
    ip = c.v(3, 1, 6)
    text = "            " + "x" * 62 + "\n            x                                               MD Data:     x\n" + b
    want = {}
    rows = [("time", "ps"), None, ("Potential Energy", "eV"), ("Kinetic   Energy", "eV"), ("Total     Energy", "eV"),
            ("Enthalpy", "eV"), ("Hamilt    Energy", "eV"), None, ("Temperature", "K")]
    drop = c.v(None, "Enthalpy")
    rows = [r for r in rows if r is None or r[0] != drop]
    for r in rows:
        if r is None:
            text = text + b
            continue
        x = c.r(ip, 6)
        text = text + "            x" + pad(r[0], 19) + ":" + pad(x, 14) + pad(r[1], 21) + "     x\n"
        want["_".join(r[0].lower().split())] = float(x)
    if c.v(True, False):
        text = text + "            x      T/=0 Pressure:" + pad(c.r(ip, 6), 14) + "                  GPa     x\n"
    return text + "            " + "x" * 62 + "\n", want


def contents(c, names):
    """Sections printed within a step."""
    text, want = "", {}
    for n in names:
        t, w = {"cell": E01["cell"], "positions": E01["positions"], "scf": E02["scf"], "energies": E02["energies"], "forces": E03["forces"],
                "stress": E03["stress"], "memory": E01["memory"], "md_data": md_data}[n](C(c.S, 0))
        text = text + t + "\n"
        want.update(w)
    return text, want


def as_step(want):
    """The step's structure goes by other names than the initial one."""
    names = {"initial_cell": "cell", "initial_positions": "positions"}
    return {names.get(k, k): v for k, v in want.items()}


STEP = ("cell", "positions", "scf", "energies", "forces", "stress", "md_data")


def md(c):
    n = c.n(2, 1, 3)
    text, want = "", {}
    if c.v(True, False):
        t, want = contents(c, c.v(("cell", "positions", "scf", "energies"), ("energies",)))
        text = text + t
    steps = []
    if c.v(True, False):
        t, w = contents(c, c.v(("md_data",), ("forces", "md_data"), ("forces", "stress", "md_data")))
        text = text + " Starting MD\n\n" + t + "\n\n"
        steps.append(as_step(w))
    for k in range(n):
        names = c.v(STEP, ("md_data",), ("forces", "md_data"), ("cell", "positions", "energies", "forces", "md_data"))
        t, w = contents(c, names)
        text = text + EQ + " Starting MD iteration" + pad(c.v(str(k + 1), c.pi(6)), 11) + " ...\n" + EQ + "\n"
        if k == 0 and c.v(False, True):
            mt, mw = contents(c, ("memory",))
            text, want = text + mt, want | mw
        text = text + t + "\n\n" + DASH + " ... finished MD iteration" + pad(str(k + 1), 11) + "\n" + c.v("\n", "")
        steps.append(as_step(w))
    text = text + " Finished MD\n\n"
    if c.v(True, False):
        t, w = contents(c, ("forces",))
        text, want = text + t, want | w
    return text, want | {"md": steps}


def geom_table(c, m):
    b = " +-----------+-----------------+-----------------+------------+-----+ <-- " + m + "\n"
    text, want = b + " | Parameter |      value      |    tolerance    |    units   | OK? | <-- " + m + "\n" + b, {}
    for p, k, u in [("dE/ion", "de_ion", "eV"), ("|F|max", "f_max", "eV/A"), ("|dR|max", "dr_max", "A"), ("Smax", "smax", "GPa")][:c.n(4, 3)]:
        v, t, ok = c.r(1, 6, "", exp=EXP3), c.r(1, 6, "", exp=EXP3), c.v("No ", "Yes")
        text = text + " |" + p.center(11) + "|" + pad(v, 16) + " |" + pad(t, 16) + " |" + pad(u, 11) + " | " + ok + " | <-- " + m + "\n"
        want[k] = {"value": float(v), "tolerance": float(t), "converged": ok == "Yes"}
    return text + b, want


def min_table(c, m, steps=("previous",)):
    b = " +------------+-------------+-------------+-----------------+ <-- min " + m + "\n"
    text, want = b + " |    Step    |   lambda    |   F.delta'  |    enthalpy     | <-- min " + m + "\n" + b, {}
    for s in steps:
        la, f, e = c.r(1, 6), c.r(c.v(1, 4), 6), c.r(c.v(4, 6), 6)
        text = text + " |" + pad(s, 11) + " |" + pad(la, 12) + " |" + pad(f, 12) + " |" + pad(e, 16) + " | <-- min " + m + "\n"
        want[s] = {"lambda": float(la), "fdelta": float(f), "enthalpy": float(e)}
    return text + b, want


def finished(c, m, k):
    e = c.r(1, 8, exp=EXP3)
    return " " + m + ": finished iteration" + pad(str(k), 6) + " with enthalpy= " + e + " eV\n\n", float(e)


def final_configuration(c, m):
    ce, w = E01["cell"](C(c.S, 0))
    po, pw = E01["positions"](C(c.S, 0))
    e = c.r(1, 8, exp=EXP3)
    # the freqeuncy's own line is only printed when it was fitted
    text = EQ + " " + m + ": Final Configuration:\n" + EQ + "\n" + ce + "\n" + po + "\n\n " + m + ": Final Enthalpy     = " + e + " eV\n"
    want = {"cell": w["initial_cell"], "atoms": pw["initial_positions"], "final_enthalpy": float(e)}
    if c.v(True, False):
        text = text + " " + m + ": Final <frequency>  unchanged from initial value\n"
    else:
        f = c.r(3, 5, "")
        text = text + " " + m + ": Final <frequency>  = " + pad(f, 12) + " cm-1\n"
        want["final_<frequency>"] = float(f)
    if c.v(True, False):
        b = c.r(3, 5, "")
        text = text + " " + m + ": Final bulk modulus = " + pad(b, 13) + " GPa\n"
        want["final_bulk_modulus"] = float(b)
    return text + "\n", want


def geom(c):
    n = c.n(2, 1, 3)
    m = c.v("LBFGS", "BFGS", "TPSD", "FIRE", "DMD", "DI")
    text, first, top = "", {}, {}
    if c.v(True, False):
        t, w = contents(c, c.v(("cell", "positions", "scf", "energies", "forces", "stress"), ("energies", "forces"), ("cell", "positions")))
        text = text + t + "\n"
        top = {k: v for k, v in w.items() if k in ("initial_cell", "initial_positions", "energies", "dedlne")}
        first = as_step({k: v for k, v in w.items() if k not in ("energies", "dedlne")})
    t, e = finished(c, m, 0)
    tt, gt = geom_table(c, m)
    text = text + t + tt + "\n"
    its = [first | {"enthalpy": [e], "minimisation": [gt]}]
    for k in range(n):
        text = text + EQ + " Starting " + m + " iteration" + pad(c.v(str(k + 1), c.pi(5)), 11) + " ...\n" + EQ + "\n"
        minim, trials = [], []
        if c.v(True, False):
            t, w = min_table(c, m)
            text, minim = text + t + "\n\n", minim + [w]
        if c.v(True, False):
            x = c.r(3, 6, "")
            text = text + DASH + " " + m + ": starting iteration" + pad(c.v(str(k + 1), c.pi(3)), 10) + " with trial guess (lambda=" + pad(x, 10) + ")\n" + DASH + "\n"
            trials.append(float(x))
        t, w = contents(c, c.v(("cell", "positions", "scf", "energies", "forces", "stress"), ("memory", "cell", "positions", "energies", "forces")))
        text, w = text + t, as_step(w)
        if c.v(True, False):
            t, mw = min_table(c, m, c.v(("previous", "trial step"), ("previous", "trial step", " line step"), ("previous", "trial step", " quad step")))
            text, minim = text + t + "\n", minim + [{k.strip(): v for k, v in mw.items()}]
        t, e = finished(c, m, c.v(k + 1, c.pi(4)))
        tt, gt = geom_table(c, m)
        text = text + t + tt + "\n"
        w |= {"enthalpy": [e], "minimisation": [*minim, gt]}
        if trials:
            w["geom_opt"] = {"trial": trials}
        its.append(w)
    want = {"geom_opt": {"iterations": its}}
    text = text + " " + m + ": " + c.v("Geometry optimization completed successfully.", "Geometry optimization failed to converge after 2 steps.") + "\n\n"
    t, want["geom_opt"]["final_configuration"] = final_configuration(c, m)
    text = text + t
    if c.v(True, False):
        t, w = contents(c, ("forces", "stress"))
        text, want = text + t, want | w
    return text, top | want


def two_trials(c):
    """An iteration that tries two structures keeps what was printed for both."""
    text, want = contents(c, ("forces",))
    a, aw = contents(c, ("cell", "positions", "energies", "forces", "stress"))
    b, bw = contents(c, ("cell", "positions", "energies", "forces", "stress"))
    t0, e0 = finished(c, "BFGS", 0)
    t1, e1 = finished(c, "BFGS", 1)
    la = c.r(1, 6, "")
    full = (text + t0 + EQ + " Starting BFGS iteration          1 ...\n" + EQ + "\n" + DASH + " BFGS: starting iteration         1 with trial guess (lambda=" + pad(la, 10) + ")\n"
            + DASH + "\n" + a + DASH + " BFGS: improving iteration         1 with line minimization (lambda=  1.652345)\n" + DASH + "\n" + b + t1)
    t, final = final_configuration(c, "BFGS")
    step = as_step(bw)
    for k in ("energies", "forces", "stresses"):
        step[k] = {x: (*aw[k][x], *bw[k][x]) for x in bw[k]}
    step |= {"enthalpy": [e1], "geom_opt": {"trial": [float(la)]}}
    return full + t, {"geom_opt": {"iterations": [want | {"enthalpy": [e0]}, step], "final_configuration": final}}


def joined(a, b):
    """What two printings of the same sections add up to."""
    return {k: {x: (*a[k][x], *b[k][x]) for x in b[k]} if k in ("energies", "forces", "stresses") else (*a[k], *b[k]) if k == "scf" else b[k] for k in b}


def doubled(c):
    """Sections printed twice, before, within or after the steps."""
    names = c.v(("energies", "forces", "stress"), ("scf", "energies"))
    (a, aw), (b, bw) = contents(c, names), contents(c, names)
    where = c.v("geom before", "md step", "md before", "md after")
    w = joined(aw, bw)
    if where == "geom before":
        t0, e0 = finished(c, "BFGS", 0)
        s, sw = contents(c, names)
        t1, e1 = finished(c, "BFGS", 1)
        f, final = final_configuration(c, "BFGS")
        text = a + b + t0 + EQ + " Starting BFGS iteration          1 ...\n" + EQ + "\n" + s + t1 + f
        first = {k: v for k, v in w.items() if k not in ("energies", "dedlne")}
        return text, {k: v for k, v in w.items() if k in ("energies", "dedlne")} | {
            "geom_opt": {"iterations": [first | {"enthalpy": [e0]}, sw | {"enthalpy": [e1]}], "final_configuration": final}}
    s, sw = contents(c, ("md_data",))
    head, tail = EQ + " Starting MD iteration          1 ...\n" + EQ + "\n", "\n\n" + DASH + " ... finished MD iteration          1\n"
    if where == "md step":
        return head + a + b + s + tail + "\n Finished MD\n\n", {"md": [w | sw]}
    if where == "md before":
        return a + b + head + s + tail + "\n Finished MD\n\n", w | {"md": [sw]}
    return head + s + tail + "\n Finished MD\n\n" + a + b, w | {"md": [sw]}


def tss(c):
    text, want = "", {}
    for name in ("Reactant", "Product")[c.v(0, 1):]:
        text = text + "            " + "x" * 60 + "\n            x" + name.center(58) + "x\n            " + "x" * 60 + "\n"
        text = text + "            x  Element    Atom        Fractional coordinates of atoms  x\n            x            Number           u          v          w      x\n            x" + "-" * 58 + "x\n"
        d = {}
        for a in atoms(c, c.n(2, 1, 3), labels=False):
            v = c.rs(3, c.v(1, 2), 6)
            text = text + "            x  " + a[0].ljust(7) + pad(a[1], 7) + "     " + "".join([pad(x, 11) for x in v]) + "   x\n"
            d[key(a)] = floats(v)
        text = text + "            " + "x" * 60 + "\n\n"
        want[name.lower()] = d
    return text, want


def constraints(c):
    text = "  INTERNAL CONSTRAINTS\n #  Type     Target    Actual           Definition\n\n"
    out = []
    ats = [c.pi(c.v(1, 3)), "25", "36", "47"]
    for k, (ty, n) in enumerate([("Bond", 2), ("Angle", 3), ("Torsion", 4)][:c.n(3, 1)]):
        tgt, sat = c.r(c.v(3, 1), 3, c.v("", "-")), c.v(True, False)
        act = c.r(3, 3, "")
        line, cons = pad(str(k + 1), 3) + " " + ty.ljust(8) + pad(tgt, 9) + " " + pad("Satisfied" if sat else act, 9), {}
        for a in ats[:n]:
            img = [c.u(1), "0", c.v("0", "-1")]
            line = line + pad(a, 4) + " (" + "".join([pad(x, 2) for x in img]) + ")"
            cons[int(a)] = tuple(int(x) for x in img)
        text = text + line + "\n"
        out.append({"type": ty, "target": None if sat else float(tgt), "current": float(tgt if sat else act), "satisfied": sat, "constraints": cons})
    return text + "\n\n", {"internal_constraints": out}


def own_image(c):
    """A bond between an atom and its periodic image."""
    text = "  INTERNAL CONSTRAINTS\n #  Type     Target    Actual           Definition\n\n  1 Bond       2.360 Satisfied   4 ( 0 0 0)   4 ( 0 0 1)\n\n\n"
    return text, 2


def deloc(c):
    text, m = "Message: Generating delocalized internals\n", {}
    for k in range(c.n(2, 0, 1)):
        p = c.pi(c.v(2, 5))
        text = text + " constraint #" + pad(str(k + 1), 6) + " is a primitive #" + pad(p, 6) + "\n"
        m[k + 1] = int(p)
    n = [c.pi(c.v(2, 5)) for _ in range(4)]
    text = text + "\nTotal number of primitive bonds:" + pad(n[0], 15) + "\nTotal number of primitive angles:" + pad(n[1], 14)
    text = text + "\nTotal number of primitive dihedrals:" + pad(n[2], 11) + "\n\nTotal number of primitive internals:" + pad(n[3], 11)
    text = text + "\n\nMessage: Generation of delocalized internals is successful\n\n"
    w = {"constraint_mapping": m, "num_bonds": int(n[0]), "num_angles": int(n[1]), "num_dihedrals": int(n[2]), "num_internals": int(n[3])}
    if c.v(True, False):
        k = [c.pi(c.v(2, 4)) for _ in range(3)]
        text = text + " The size of active space is :" + pad(k[0], 6) + "\n There are :" + pad(k[1], 7) + "  degrees of freedom\n There are :" + pad(k[2], 7) + "  primitive internals\n\n"
        w |= {"active_space_size": int(k[0]), "num_dof": int(k[1]), "num_primitive_internals": int(k[2])}
    return text, {"delocalised_internal": w}


E05 = {f.__name__: f for f in (md_data, md, geom, two_trials, doubled, tss, constraints, deloc)}
