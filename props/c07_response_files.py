"""C07: electric-response and elastic files, every tensor and mode at its place."""
from props.common import digits, floats, pad, real, uint
from props.c05_phonons import header

from castep_outputs.parsers.efield_file_parser import parse_efield_file
from castep_outputs.parsers.elastic_file_parser import parse_elastic_file

BOUNDS = (".efield: 1..2 ions (tagged species too), 0..4 modes (thorough 6), 0..4 permittivity rows, oscillator Q of 1..3 digits, "
          "mode indices of 1..4 digits; .elastic: 0..3 blocks in any order among nine kinds, with or without units and component "
          "labels, 1..6 rows of 1..6 numbers, exponents of 2 digits, internal strain of 1..3 atoms with tags; all digits and "
          "signs symbolic; twelve modes, eleven permittivity rows")
OUTSIDE = "what is listed as a known finding: shifted oscillator columns, dropped last rows, index in front of internal strain rows"
ASSUMPTIONS = ["whether the listed findings are present is read off one concrete probe file; everything else about the rows is "
               "decided for all values"]

VOIGT = ("xx", "yy", "zz", "yz", "xz", "xy")
PROBE = """ BEGIN header
  Number of ions                1
 END header
 BEGIN Oscillator Strengths   Freq (cm-1)   S xx yy zz yz zx xy ((D/A)**2/amu)
        1        0.5            0.11       0.12       0.13      0.14       0.15      0.16
        2        1.5            0.21       0.22       0.23      0.24       0.25      0.26
 END Oscillator Strengths
 BEGIN permittivity   Freq (cm-1)    e_r  xx yy zz yz zx xy
              0.5            0.11       0.12       0.13      0.14       0.15      0.16
              1.5            0.21       0.22       0.23      0.24       0.25      0.26
 END permittivity
"""
STRAIN = """ BEGIN Internal Strain (eV/A)
     3   Al      X    0.1       0.2       0.3       0.4       0.5       0.6
 END Internal Strain
"""


def probe(S):
    """(columns shifted, modes dropped at the end, permittivity rows dropped at the end)."""
    out = parse_efield_file(S.file(PROBE))
    osc = (out.get("oscillator_strengths") or [{"freq": []}])[0]
    perm = (out.get("permittivity") or [{"freq": []}])[0]
    return bool(osc["freq"]) and osc["freq"][0] == 1.0, 2 - len(osc["freq"]), 2 - len(perm["freq"])


def efield(S, ions, modes, perms, q=2, nd=1, final="\n"):
    shifted, lost, plost = probe(S)
    q = real(S, q, 1, sg="")
    head, want = header(S, ions, (("ions", ions), ("branches", modes), ("frequencies", perms)),
                        ["  Oscillator Q               " + q + "\n"])
    want["Oscillator Q"] = (float(q),)
    text = [*head, " BEGIN Oscillator Strengths   Freq (cm-1)   S xx yy zz yz zx xy ((D/A)**2/amu)\n"]
    rows = []
    for m in range(modes):
        idx = uint(S, nd) if nd > 1 else str(m + 1)
        v = [real(S, 3, 6), *[real(S, 2, 6) for _ in range(6)]]
        text.append(pad(idx, 9) + "        " + "      ".join(v) + "\n")
        rows.append((float(int(idx)), *floats(v)) if shifted else floats(v))
    text.append(" END Oscillator Strengths\n")
    text.append(" BEGIN permittivity   Freq (cm-1)    e_r  xx yy zz yz zx xy\n")
    prow = []
    for _ in range(perms):
        v = [real(S, 3, 6, sg=""), *[real(S, 2, 6) for _ in range(6)]]
        text.append("      " + "      ".join(v) + "\n")
        prow.append(floats(v))
    text.append(" END permittivity" + final)
    for key, rr, n in (("oscillator_strengths", rows, lost), ("permittivity", prow, plost)):
        rr = rr[:len(rr) - n] if n else rr
        if rr:
            want[key] = [{c: [r[k] for r in rr] for k, c in enumerate(("freq", *VOIGT))}]
    S.eq(parse_efield_file(S.file("".join(text))), want, "efield")


def h_efield(S):
    efield(S, S.count(1, 2), S.choice(*range(7 if S.thorough else 5), 12), S.choice(0, 1, 2, 4, 11), final=S.choice("\n", ""))


def h_efield_form(S):
    efield(S, 1, 3, 2, q=S.choice(1, 3), nd=S.choice(2, 4))


def h_osc(S):
    shifted, lost, _ = probe(S)
    S.check(not S.flag() or not shifted, "oscillator strengths: the mode index is returned as the frequency")
    S.check(lost != 1, "oscillator strengths: the last mode is dropped")
    S.check(lost == 0, "oscillator strengths: number of modes")


def h_perm(S):
    plost = probe(S)[2]
    S.check(plost != 1, "permittivity: the last row is dropped")
    S.check(plost == 0, "permittivity: number of rows")


KINDS = (("Elastic Constants", "elastic_constants", "GPa"), ("Compliance Matrix", "compliance_matrix", "GPa^-1"),
         ("Elastic Constants [Frozen Ion]", "elastic_constants_frozen_ion", "GPa"),
         ("Relaxed Ion Contribution", "relaxed_ion_contribution", "GPa"), ("Piezoelectric", "piezoelectric", "C/m^2"),
         ("Piezoelectric [Frozen Ion]", "piezoelectric_frozen_ion", "C/m^2"),
         ("Relaxed Ion Piezoelectric Contribution", "relaxed_ion_piezoelectric_contribution", "C/m^2"),
         ("Elastic Constants xx yy zz yz zx xy", "elastic_constants", "GPa"), ("Thermal Expansion", "thermal_expansion", None))
# ways CASTEP's list-directed output writes a double
FORMS = (dict(ip=3, fp=13), dict(ip=0, fp=16, exp=("E", "sym", 2)), dict(ip=1, fp=15), dict(ip=0, fp=16))


def num(S, k):
    f = FORMS[k % len(FORMS)]
    return real(S, f["ip"], f["fp"], sg=S.choice("-") if k % 2 else "", exp=f.get("exp"))


def eblock(S, kind, rows, cols, base=0):
    name, key, unit = kind
    head = " BEGIN " + name + (f"  ({unit})" if unit else "") + "\n"
    v = [[num(S, base + r + c) for c in range(cols)] for r in range(rows)]
    text = [head, *["     " + "      ".join(r) + "\n" for r in v], " END " + name.replace(" xx yy zz yz zx xy", "") + "\n"]
    return text, key, {"units": unit, "val": tuple(floats(r) for r in v)}


def strain_index(S):
    out = parse_elastic_file(S.file(STRAIN))
    rows = out["internal_strain"]["Al", 3]
    return rows[0][0] == 3.0


def strain(S, atoms, dirs="XYZ", unit="eV/A", indexed=False):
    text = [" BEGIN Internal Strain" + (f" ({unit})" if unit else "") + "\n"]
    want = {"units": unit}
    for sp, idx in atoms:
        for k, d in enumerate(dirs):
            v = [num(S, k + c) for c in range(6)]
            text.append(pad(idx, 6) + "   " + sp.ljust(5) + "   " + d + "    " + "    ".join(v) + "\n")
            row = floats(v)
            want.setdefault((sp, int(idx)), []).append((float(int(idx)), *row) if indexed else row)
    text.append(" END Internal Strain\n")
    return text, "internal_strain", want


def elastic(S, blocks, ions=1, head=True, final="\n"):
    text, want = [], {}
    if head:
        text, want = header(S, ions, (("ions", ions),))
    for t, k, w in blocks:
        text += t
        want[k] = w
    if not final:
        text[-1] = text[-1][:-1]
    out = parse_elastic_file(S.file("".join(text)))
    out.pop("", None)
    S.eq(out, want, "elastic")


def h_elastic(S):
    k = S.choice(*KINDS)
    elastic(S, [eblock(S, k, S.choice(1, 3, 6), S.choice(1, 6))], head=S.flag())


def h_elastic_order(S):
    n = S.count(0, 3)
    start = S.choice(0, 2, 4, 6)
    ks = [KINDS[(start + i * 3) % 7] for i in range(n)]
    bl = [eblock(S, k, 2, 3, base=i) for i, k in enumerate(ks)]
    at = S.count(0, n)
    bl.insert(at, strain(S, [("Al", "1")], indexed=strain_index(S)))
    elastic(S, bl, final=S.choice("\n", ""))


def h_strain(S):
    atoms = S.choice([("Al", "1")], [("Al", "1"), ("P", "1")], [("Al", "1"), ("Al", "2"), ("P:a", "1")], [("Si", "12"), ("Si", "123")])
    elastic(S, [strain(S, atoms, unit=S.choice("eV/A", None), indexed=strain_index(S))])


def h_strain_known(S):
    S.check(not strain_index(S), "internal strain: the atom's index precedes the values")


def cases(tier):
    return [("efield", h_efield), ("efield_form", h_efield_form), ("osc_known", h_osc), ("perm_known", h_perm),
            ("elastic", h_elastic), ("elastic_order", h_elastic_order), ("strain", h_strain), ("strain_known", h_strain_known)]
