"""Trajectory text and what it means, shared by C01 and C02."""
from props.common import digits, nz, real, uint

ALIAS = {"E": "energy", "T": "temperature", "P": "pressure", "h": "lattice_vectors", "hv": "lattice_velocity",
         "S": "stress", "R": "position", "V": "velocity", "F": "force"}
ROWS = {"E": (1, 3), "T": (1, 1), "P": (1, 1), "h": (3, 3), "hv": (3, 3), "S": (3, 3)}
HEADERS = {"std": " BEGIN header\n  \n END header\n  \n", "comment": " BEGIN header\n my run 1.0 <-- E\n second line\n END header\n  \n",
           "tight": " BEGIN header\n  \n END header\n", "none": "", "lead": "\n  \n BEGIN header\n  \n END header\n\n",
           "blank": "\n"}


def number(S, exp):
    return real(S, 1, 3, exp=exp)


def put(d, k, v):
    d[k] = v
    if k in ALIAS:
        d[ALIAS[k]] = v


def frame(S, tags, atoms, props, exp=("E", "sym", 3), step=None, wide=1):
    """Lines of one frame (without the closing blank line) and its expected value."""
    ls, want = [], {}
    if step is None:
        t = real(S, 2, 3, sg="", exp=exp)
        ls.append("                     " + t + "\n")
        want["time"] = float(t)
    elif step == "geom":
        n = uint(S, 2)
        ls.append("                  " + n + "        F   T   F   F       <-- c\n")
        want["c"] = [[float(n)]]
    elif step == "int":
        n = uint(S, 2)
        ls.append("                  " + n + "   \n")
        want["time"] = float(n)
    for tag in tags:
        rows, cols = ROWS[tag]
        val = []
        for _ in range(rows):
            ts = [number(S, exp) for _ in range(cols)]
            ls.append("        " + "    ".join(ts) + "      <-- " + tag + "\n")
            val.append([float(x) for x in ts])
        put(want, tag, val)
    ions = {}
    for p in props:
        for name, idx in atoms:
            ts = [number(S, exp) for _ in range(3)]
            ls.append(" " + name.ljust(3) + " " * (8 - len(idx)) + idx + "     " + "   ".join(ts) + "   <-- " + p + "\n")
            d = ions.setdefault((name, int(idx)), {})
            put(d, p, tuple(float(x) for x in ts))
    want["ions"] = ions
    return ls, want


ATOMS = {"twelve": [("Si", str(k + 1)) for k in range(12)], 0: (), 1: (("H", "1"),), 2: (("Si", "1"), ("Si", "2")), 3: (("O", "1"), ("H", "1"), ("H", "2")),
         "label": (("H:d", "1"), ("H [up]", "1"), ("H", "1"), ("Mn:b", "7"), ("O [b c]", "3")), "wide": (("Si", "9999"), ("Si", "10000"), ("Uue", "123456")),
         "order": (("H", "2"), ("O", "1"), ("H", "1"))}
