"""C09: TDDFT, electron-phonon and error files, every record."""
from props.common import digits, floats, pad, real, sign, uint

from castep_outputs.parsers.epme_file_parser import parse_epme_file
from castep_outputs.parsers.err_file_parser import parse_err_file
from castep_outputs.parsers.tddft_file_parser import parse_tddft_file

BOUNDS = (".tddft: 0..3 states (thorough 5) with 0..3 transitions each, band indices of 1..4 digits, any characterisation, "
          "converged or not, three-digit exponents, sections present or absent; .epme: 0..2 k-point pairs with 0..3 rows, "
          "indices of 1..4 digits; .err: 0..2 message lines and 0..3 stack entries of up to 6 arbitrary printable characters; "
          "all digits and signs symbolic; twelve (thorough 30) atoms, states, pairs, rows or stack entries")
OUTSIDE = "what is listed as a known finding: highest occupied bands, electron-phonon columns read one column early"
ASSUMPTIONS = ["exponents stay within the range of a double",
               "whether the electron-phonon finding is present is read off one concrete probe file; everything else about the "
               "rows is decided for all values"]
E3 = ("E", "sym", 3)


# ------------------------------------------------------------------------- TDDFT
def header(S, atoms, spins=1):
    text = ["BEGIN header\n", " CASTEP generated TDDFT output\n"]
    text += [f" Highest occupied band for spin channel {s + 1}          4\n" for s in range(spins)]
    text.append(" Energies in eV\n")
    rows = [[real(S, 1, 6) for _ in range(3)] for _ in range(3)]
    text += [" Unit cell vectors (A)\n", *["   " + "   ".join(r) + "\n" for r in rows], " Fractional Co-ordinates\n"]
    want = {"unit_cell": [floats(r) for r in rows], "coords": {}}
    for sp, i in atoms:
        p = [real(S, 1, 6) for _ in range(3)]
        text.append(" " + sp.ljust(5) + pad(i, 6) + "     " + "    ".join(p) + "\n")
        want["coords"][sp, int(i)] = floats(p)
    text.append("END header\n")
    return text, want


def overlaps(S, shape, nd=1):
    """shape: transitions per state."""
    text = ["BEGIN Characterisation of states as Kohn-Sham bands\n", " State      Occ.         Unocc.        Overlap\n"]
    want = []
    for s, n in enumerate(shape):
        d = {}
        for t in range(n):
            # distinct pairs: the leading digits differ
            occ, un = str(t + 1) + digits(S, nd - 1), str(9 - t) + digits(S, nd - 1)
            v = real(S, 1, 6, sg="")
            text.append(f"{s + 1:10d}" + pad(occ, 10) + " -->" + pad(un, 11) + "       " + v + "\n")
            d[int(occ), int(un)] = float(v)
        v = real(S, 1, 6, sg="")
        text.append(f" Total overlap for state{s + 1:5d} = " + v + "\n")
        d["total"] = float(v)
        want.append(d)
    return [*text, "END Characterisation of states as Kohn-Sham bands\n"], want


def spectro(S, n, form=E3):
    text = ["BEGIN TDDFT Spectroscopic Data\n",
            " State   Excitation Energy         Characterisation   Converged  Transition Dipoles (x,y,z)\n"]
    want = []
    for s in range(n):
        e = real(S, 1, 16, sg="", exp=form)
        ch, conv = S.choice(("Singlet", True), ("Triplet", False), ("unknown", False)) if n < 3 else ("Singlet", True)
        d = [real(S, 1, 16, sg=S.choice("-") if k % 2 else " ", exp=form) for k in range(6)]
        text.append(f"{s + 1:10d}   " + e + "       " + ch.ljust(18) + ("Yes" if conv else "No ")
                    + "     ( " + d[0] + " " + d[1] + ")   ( " + d[2] + " " + d[3] + ")   ( " + d[4] + " " + d[5] + ")\n")
        d = floats(d)
        want.append({"energy": float(e), "characterisation": ch, "converged": conv,
                     "dipoles": [complex(d[k], d[k + 1]) for k in (0, 2, 4)]})
    return [*text, "END TDDFT Spectroscopic Data\n"], want


def tddft(S, atoms, shape=None, nd=1, states=None, form=E3, spins=1, final="\n"):
    text, want = header(S, atoms, spins)
    if shape is not None:
        t, want["overlap"] = overlaps(S, shape, nd)
        text += t
    if states is not None:
        t, want["spectroscopic_data"] = spectro(S, states, form)
        text += t
    if not final:
        text[-1] = text[-1][:-1]
    out = parse_tddft_file(S.file("".join(text)))
    out.pop("", None)
    # the highest occupied bands have their own case
    for k in list(out):
        if "highest" in str(k).lower():
            del out[k]
    S.eq(out, want, "tddft")


AT = (("B", "1"), ("N", "2"), ("Uue", "12"))


def h_tddft(S):
    tddft(S, AT[:S.count(1, 3)], S.choice(None, (), (1,), (2, 0, 1)), states=S.choice(None, 0, 1, 2), spins=S.choice(1, 2),
          final=S.choice("\n", ""))


def h_overlap(S):
    tddft(S, AT[:1], (3, 2) if not S.thorough else (3, 2, 3, 1, 2), nd=S.choice(1, 2, 4))


def h_states(S):
    tddft(S, AT[:1], None, states=S.choice(1, 3, 5 if S.thorough else 4), form=S.choice(E3, ("E", "sym", 2), None))


def h_band(S):
    text, _ = header(S, AT[:1])
    out = parse_tddft_file(S.file("".join(text)))
    S.check(any("ighest" in str(k) or "occupied" in str(k) for k in out), "the highest occupied band is not returned")


# ----------------------------------------------------------------------- EPME
def epme_head(S, form):
    v, b, m = digits(S, 1), uint(S, 2), uint(S, 1)
    vol, fe = real(S, 3, 10, sg=""), real(S, 1, 12, exp=form)
    text = [" Electron-phonon coupling file\n", " Version           " + v + "\n", " All units are atomic units\n",
            " Unit cell volume   " + vol + "     \n", " Fermi Energy  " + fe + "\n", " Number of bands:          " + b + "\n",
            " Number of phonon branches:           " + m + "\n"]
    return text, {"version": int(v), "volume": float(vol), "fermi_energy": float(fe), "n_bands": int(b), "n_branches": int(m),
                  "data": []}


EPH = ("Ph index  Band_i  Band_f      ph_freq         E_i         E_f          velocity for band 1                 "
       "velocity for band 2                EP Matrix Element\n")
EPK = "Electron-Phonon coupling matrix elements between kpoints (    {}    {}    {}) and (    {}    {}    {})\n"


def epme_shift(S):
    text = [" Electron-phonon coupling file\n", " Version           1\n", " All units are atomic units\n", " Unit cell volume   2.5\n",
            " Fermi Energy  -6.5\n", " Number of bands:           1\n", " Number of phonon branches:           1\n",
            EPK.format(*[f"0.{k}" for k in range(1, 7)]), EPH,
            "       1       1       1     0.25  0.5  0.75  1.0 2.0 3.0  4.0 5.0 6.0  7.0 8.0\n"]
    return parse_epme_file(S.file("".join(text)))["data"][0]["e_i"] == 0.25


def epme(S, shape, nd=1, form=("E", "sym", 3), final="\n"):
    shift = epme_shift(S)
    text, want = epme_head(S, form)
    for n in shape:
        k = [real(S, 1, 6) for _ in range(6)]
        text += ["Electron-Phonon coupling matrix elements between kpoints (    " + "    ".join(k[:3]) + ") and (    "
                 + "    ".join(k[3:]) + ")\n", EPH]
        k = floats(k)
        for _ in range(n):
            ix = [uint(S, nd) for _ in range(3)]
            v = [real(S, 1, 6) for _ in range(11)]
            text.append("".join(pad(i, 8) for i in ix) + "    " + "    ".join(v) + "\n")
            v = floats(v)
            f, v = (v[0], v) if shift else (v[0], v[1:])
            d = {"kpt_i": k[:3], "kpt_f": k[3:], "ph_index": int(ix[0]), "band_i": int(ix[1]), "band_f": int(ix[2]), "e_i": v[0],
                 "e_f": v[1], "velocity": (v[2:5], v[5:8]), "e_p_matrix": complex(v[8], v[9])}
            if not shift:
                d["freq"] = f
            want["data"].append(d)
    if not final:
        text[-1] = text[-1][:-1]
    S.eq(parse_epme_file(S.file("".join(text))), want, "epme")


def h_epme(S):
    epme(S, S.choice((), (0,), (1,), (3,), (1, 2), (2, 0, 1)), nd=S.choice(1, 2, 4), form=S.choice(("E", "sym", 3), None),
         final=S.choice("\n", ""))


def h_epme_known(S):
    S.check(not epme_shift(S), "matrix element columns are read one column early")


# ------------------------------------------------------------------------- err
def h_err(S):
    nl, ns = S.count(0, 2), S.count(0, 3)
    pre = S.choice("", " ", "  ")
    msg = [S.chars(1, "nospace") + S.chars(4, "print") + S.chars(1, "nospace") for _ in range(nl)]
    stack = [S.chars(1, "nospace") + S.chars(2, "print") + S.chars(1, "nospace") for _ in range(ns)]
    text = "".join([*[m + "\n" for m in msg], S.choice("Current trace stack:\n", " Current trace stack:\n")])
    text = text + "".join(pre + s + "\n" for s in stack) if stack else text
    if S.flag():
        text = text[:-1]
    S.eq(parse_err_file(S.file(text)), {"message": "\n".join(msg) if msg else "", "stack": stack}, "err")


def h_err_layout(S):
    """White space around the message is not part of it."""
    m = S.chars(3, "nospace")
    s = S.chars(3, "nospace")
    text = S.choice("", "\n", "  ") + m + S.choice("\n", " \n", "\n\n") + "Current trace stack:\n" + " " + s + S.choice("\n", "  \n")
    S.eq(parse_err_file(S.file(text)), {"message": m, "stack": [s]}, "err")


def h_err_lines(S):
    """White space within the message is."""
    m = [S.chars(1, "nospace") + S.chars(1, "print") + S.chars(1, "nospace") for _ in range(S.count(2, 3))]
    gap = S.choice("\n   ", "\n\t", "\n\n", "  \n", "\n\n  ")
    want = gap.join(m)
    S.eq(parse_err_file(S.file(want + "\nCurrent trace stack:\n one  two\n")), {"message": want, "stack": ["one  two"]}, "err")


def h_many(S):
    """Counts past ten."""
    n = 30 if S.thorough else 12
    which = S.choice("atoms", "states", "transitions", "rows", "pairs", "stack")
    if which == "atoms":
        tddft(S, [("B", str(k + 1)) for k in range(n)])
    elif which == "states":
        tddft(S, AT[:1], (1,) * n, states=n, form=None)
    elif which == "transitions":
        tddft(S, AT[:1], (9,), nd=2)
    elif which == "rows":
        epme(S, (n,))
    elif which == "pairs":
        epme(S, (1,) * n)
    else:
        stack = ["s" + S.chars(1, "word") for _ in range(n)]
        S.eq(parse_err_file(S.file("m\n Current trace stack:\n" + "".join(" " + s + "\n" for s in stack))), {"message": "m", "stack": stack}, "err")


def cases(tier):
    return [("many", h_many), ("tddft", h_tddft), ("tddft_overlap", h_overlap), ("tddft_states", h_states), ("tddft_band", h_band),
            ("epme", h_epme), ("epme_known", h_epme_known), ("err", h_err), ("err_layout", h_err_layout), ("err_lines", h_err_lines)]
