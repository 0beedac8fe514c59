"""C04: every eigenvalue under its own k-point and spin."""
from props.common import digits, real, uint

from castep_outputs.parsers.bands_file_parser import parse_bands_file

BOUNDS = ("0..4 k-points (thorough 8), one or two spin components, 0..4 bands each (different per spin), electron counts "
          "whole or fractional, one or two Fermi energies, indices up to 5 digits; all digits and signs symbolic; twelve k-points or bands (thorough 40)")
OUTSIDE = "k-points without their spin component line"
ASSUMPTIONS = []


def cell(S):
    rows = [[real(S, 2, 6) for _ in range(3)] for _ in range(3)]
    return ["Unit cell vectors\n"] + ["   " + "    ".join(r) + "\n" for r in rows], [tuple(float(x) for x in r) for r in rows]


def run(S, nk, spins, bands, elec="whole", kdig=1, weight=(1, 8), final="\n"):
    """bands: per spin, the number of eigenvalues."""
    want = {"k-points": nk, "spin components": spins, "coords": {}}
    text = [f"Number of k-points    {nk}\n", f"Number of spin components {spins}\n"]
    if elec == "whole":
        n = uint(S, 3)
        text.append("Number of electrons  " + n + "\n")
        want["electrons"] = int(n)
    elif elec == "real":
        n = uint(S, 2)
        text.append("Number of electrons  " + n + ".000\n")
        want["electrons"] = int(n)
    else:
        ns = [digits(S, 1) + "." + S.chars(1, "123456789") + digits(S, 2) for _ in range(spins)]
        text.append("Number of electrons  " + "  ".join(ns) + "\n")
        want["electrons"] = float(ns[0]) if spins == 1 else tuple(float(x) for x in ns)
    if spins == 1:
        text.append(f"Number of eigenvalues    {bands[0]}\n")
        want["eigenvalues"] = bands[0]
    else:
        text.append(f"Number of eigenvalues    {bands[0]}    {bands[1]}\n")
        want["eigenvalues"] = tuple(bands)
    fe = [real(S, 1, 6) for _ in range(spins)]
    label = "Fermi energy" if spins == 1 else "Fermi energies"
    text.append(label + " (in atomic units)     " + "    ".join(fe) + "\n")
    want[label] = tuple(float(x) for x in fe)
    ls, want["unit_cell"] = cell(S)
    text += ls
    want["bands"] = []
    for k in range(nk):
        q = [real(S, 1, 8) for _ in range(3)]
        w = real(S, weight[0], weight[1], sg="")
        idx = S.chars(1, "123456789") + digits(S, kdig - 1) if kdig > 1 else str(k + 1)
        text.append("K-point " + " " * (5 - kdig) + idx + " " + " ".join(q) + "  " + w + "\n")
        d = {"qpt": tuple(float(x) for x in q), "weight": float(w), "spin_comp": spins == 2}
        for s in range(spins):
            text.append(f"Spin component {s + 1}\n")
            ev = [real(S, 2 if i else 1, 8) for i in range(bands[s])]
            text += ["   " + e + "\n" for e in ev]
            d["band" if spins == 1 else ("band_up", "band_down")[s]] = tuple(float(e) for e in ev)
        want["bands"].append(d)
    if not final:
        text[-1] = text[-1][:-1]
    S.eq(parse_bands_file(S.file("".join(text))), want, "bands")


def h_one(S):
    nk = S.count(0, 4 if not S.thorough else 8)
    run(S, nk, 1, [S.choice(0, 1, 3, 4)])


def h_two(S):
    nk = S.count(1, 3)
    run(S, nk, 2, S.choice((2, 2), (3, 1), (0, 2), (2, 0)), elec="fraction")


def h_form(S):
    sp = S.choice(1, 2)
    run(S, 2, sp, (2, 1), elec=("whole", "real", "fraction")[S.count(0, 2)] if sp == 1 else "fraction", kdig=S.choice(1, 2, 5),
        weight=S.choice((1, 8), (0, 8), (1, 10)), final=S.flag())


def h_many(S):
    """Counts past ten."""
    n = 40 if S.thorough else 12
    which = S.choice("k-points", "bands", "bands of two spins")
    if which == "k-points":
        run(S, n, 1, [1])
    else:
        run(S, 1, 1 if which == "bands" else 2, [n] if which == "bands" else (n, n - 1), elec="whole" if which == "bands" else "fraction")


def cases(tier):
    return [("many", h_many), ("one_spin", h_one), ("two_spins", h_two), ("form", h_form)]
