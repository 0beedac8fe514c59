"""C05: every q-point's frequencies, intensities and eigenvectors; every DOS row and gradient."""
from props.common import digits, floats, pad, real, uint

from castep_outputs.parsers.phonon_dos_file_parser import parse_phonon_dos_file
from castep_outputs.parsers.phonon_file_parser import parse_phonon_file

BOUNDS = (".phonon: 0..3 q-point blocks (thorough 5), 1..3 or 6 branches (thorough 1..6), 1..2 ions (thorough 3), infrared and Raman "
          "columns present or blank per branch, of either sign, direction present or absent per q-point, repeated q-points, one- to "
          "four-digit indices; .phonon_dos: 0..3 gradients of 1..3 branches, 1..4 DOS rows, 0..3 species; all digits and signs "
          "symbolic; ten or twelve branches, twelve q-points, eleven ions")
OUTSIDE = "q-point indices of five digits or more (printed without a space)"
ASSUMPTIONS = ["columns are those of CASTEP's own output format"]


def header(S, ions, counts, extra=()):
    text = [" BEGIN header\n"]
    for k, v in counts:
        text.append(f" Number of {k}".ljust(24) + str(v) + "\n")
    text += list(extra)
    rows = [[real(S, 1, 6) for _ in range(3)] for _ in range(3)]
    text.append(" Unit cell vectors (A)\n")
    text += ["   " + "   ".join(r) + "\n" for r in rows]
    text.append(" Fractional Co-ordinates\n")
    co = {"index": [], "u": [], "v": [], "w": [], "spec": [], "mass": []}
    for i in range(ions):
        u = [real(S, 1, 6) for _ in range(3)]
        m = real(S, 2, 6, sg="")
        sp = S.choice("B", "H:a") if i == 0 else "Uue"
        text.append(f"{i + 1:6d}    " + "    ".join(u) + "   " + sp.ljust(5) + "    " + m + "\n")
        for k, v in zip(co, (i + 1, *[float(x) for x in u], sp, float(m))):
            co[k].append(v)
    text.append(" END header\n")
    want = {**dict(counts), "unit_cell": [floats(r) for r in rows], "coords": co}
    return text, want


PH = ("Frequencies in         cm-1\n", "IR intensities in      (D/A)**2/amu\n", "Raman activities in    A**4 amu**(-1)\n")


def qpt(S, n, br, ions, cols="i", d=False, idx=None, fw=3, iw=2):
    q = [real(S, 1, 6) for _ in range(3)]
    w = real(S, 1, 10, sg="")
    want = {"qpt": floats(q), "weight": float(w), "eigenvalues": [], "eigenvectors": []}
    num = idx if idx is not None else str(n)
    line = "     q-pt=" + pad(num, 5) + "   " + " ".join(q) + "      " + w
    if d:
        dd = [real(S, 1, 6) for _ in range(3)]
        line = line + "   " + " ".join(dd)
        want["dir"] = floats(dd)
    text = [line + "\n"]
    for b in range(br):
        f = real(S, fw, 6)
        want["eigenvalues"].append(float(f))
        line = f"{b + 1:8d}" + pad(f, 15) + " " * 8
        for c, key in (("i", "ir_intensity"), ("r", "raman_intensity")):
            if c in cols:
                v = real(S, iw, 7, sg="" if c == "i" and iw > 4 else "sym")
                want.setdefault(key, []).append(float(v))
                line = line + pad(v, 15) + " " * 9
            else:
                line = line + " " * 24
        text.append(line + "\n")
    text.append("                        Phonon Eigenvectors\n")
    text.append("Mode Ion                X                                   Y                                   Z\n")
    for b in range(br):
        for i in range(ions):
            v = [real(S, 1, 12) for _ in range(6)]
            text.append(f"{b + 1:4d}{i + 1:4d} " + v[0] + " " + v[1] + "     " + v[2] + " " + v[3] + "     " + v[4] + " " + v[5] + "\n")
            v = floats(v)
            want["eigenvectors"].append(tuple(complex(v[k], v[k + 1]) for k in (0, 2, 4)))
    return text, want


def phonon(S, ions, br, qs, extra=PH, final="\n"):
    text, want = header(S, ions, (("ions", ions), ("branches", br), ("wavevectors", len(qs))), [" " + x for x in extra])
    for t, w in qs:
        text += t
        want.setdefault("qpts", []).append(w)
    if not final:
        text[-1] = text[-1][:-1]
    S.eq(parse_phonon_file(S.file("".join(text))), want, "phonon")


def h_size(S):
    ions = S.count(1, 3 if S.thorough else 2)
    br = S.choice(1, 2, 3, 6) if not S.thorough else S.count(1, 6)
    nq = S.count(0, 3 if not S.thorough else 5)
    phonon(S, ions, br, [qpt(S, n + 1, br, ions) for n in range(nq)])


def h_columns(S):
    qs = [qpt(S, n + 1, 2, 1, cols=S.choice("", "i", "ir", "r"), d=S.flag()) for n in range(2)]
    phonon(S, 1, 2, qs, final=S.flag())


def h_index(S):
    n = S.choice(1, 2, 4)
    qs = [qpt(S, 0, 1, 1, idx=uint(S, n)) for _ in range(3)]
    phonon(S, 1, 1, qs, extra=S.choice(PH, ()))


def h_width(S):
    """Numbers as wide as their columns."""
    fw, iw = S.choice((1, 1), (5, 4), (7, 6))
    phonon(S, 1, 1, [qpt(S, 1, 1, 1, cols=S.choice("", "i", "ir", "r"), fw=fw, iw=iw)], final=S.flag())


def h_many(S):
    which = S.choice("branches", "q-points", "ions")
    if which == "branches":
        br = S.choice(10, 12)
        phonon(S, 1, br, [qpt(S, 1, br, 1, cols="")])
    elif which == "q-points":
        phonon(S, 1, 1, [qpt(S, n + 1, 1, 1, cols="") for n in range(12)])
    else:
        phonon(S, 11, 1, [qpt(S, 1, 1, 11, cols="")])


def dos(S, grads, rows, species, known=False, width=1):
    text, want = header(S, 1, (("ions", 1), ("species", max(1, len(species))), ("branches", 3), ("bins in DOS", rows)))
    if grads is not None:
        text.append(" BEGIN GRADIENTS   n   f   |Grad_q f|\n")
        for g, br in enumerate(grads):
            q = [real(S, 1, 6) for _ in range(3)]
            w = real(S, 1, 10, sg="")
            text.append(f"     q-pt={g + 1:5d}   " + " ".join(q) + "      " + w + "\n")
            d = {"qpt": list(floats(q)), "pth": [float(w)], "n": [], "f": [], "Grad_qf": []}
            for b in range(br):
                f, gr = real(S, 3, 6), real(S, 2, 7, sg="")
                text.append(f"{b + 1:8d}" + pad(f, 15) + " " * 8 + pad(gr, 15) + "\n")
                d["n"].append(b + 1)
                d["f"].append(float(f))
                d["Grad_qf"].append(float(gr))
            want.setdefault("gradients", []).append(d)
        text.append(" END GRADIENTS\n")
    text.append(" BEGIN DOS   Freq (cm-1)  g(f)   " + " ".join(species) + "\n")
    heads = ("freq", "g", *species)
    table = {h: [] for h in heads}
    for _ in range(rows):
        v = [real(S, width, 1), *[real(S, 1, 6) for _ in heads[1:]]]
        text.append("   " + "   ".join(v) + "\n")
        for h, x in zip(heads, v):
            table[h].append(float(x))
    text.append("  END DOS\n")
    out = parse_phonon_dos_file(S.file("".join(text)))
    out.pop("", None)
    got = out.pop("dos", [])
    S.eq(out, want, "phonon_dos")
    if known:
        n = len(got[0]["freq"]) if got else 0
        S.check(n != rows - 1, "the last DOS row is dropped")
        S.eq(n, rows, "number of DOS rows")
        return
    # the last row is judged by its own case
    if rows == 1 and not got:
        return
    S.eq(len(got), 1, "DOS tables")
    S.check(len(got[0]["freq"]) in (rows, rows - 1), "number of DOS rows")
    n = len(got[0]["freq"])
    S.eq(got[0], {k: v[:n] for k, v in table.items()}, "DOS rows")


def h_dos(S):
    sp = S.choice((), ("Si",), ("B", "N"), ("O", "H:a", "Uue"))
    dos(S, [1], S.choice(2, 3, 4), sp, width=S.choice(1, 3))


def h_grad(S):
    dos(S, S.choice(None, [1], [3, 3], [1, 2, 1]), 2, ("Si",))


def h_last(S):
    dos(S, None, S.choice(1, 2, 3), ("Si",), known=True)


def h_malformed(S):
    """A block with fewer or more rows than the header promises is an error."""
    br = 2
    n = S.choice(1, 3)
    t, _ = qpt(S, 1, 2, 1)
    text, _ = header(S, 1, (("ions", 1), ("branches", br), ("wavevectors", 1)))
    bad = list(t)
    if S.flag():
        bad = bad[:1] + (bad[1:2] if n == 1 else bad[1:3] + [bad[2]]) + bad[3:]
        S.raises(ValueError, lambda: parse_phonon_file(S.file("".join(text + bad))), "wrong number of branches")
    else:
        bad = bad[:-2] + (bad[-1:] if n == 1 else [bad[-2], bad[-2], bad[-1]])
        S.raises(ValueError, lambda: parse_phonon_file(S.file("".join(text + bad))), "wrong number of eigenvectors")


def cases(tier):
    return [("size", h_size), ("columns", h_columns), ("index", h_index), ("width", h_width), ("many", h_many), ("malformed", h_malformed),
            ("dos", h_dos), ("gradients", h_grad), ("dos_last_row", h_last)]
