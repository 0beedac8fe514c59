"""B04: binary electron-phonon files."""
from props.common import be_i32, c128s, f64, f64s, i32, rec

from castep_outputs.bin_parsers.epme_bin_parser import parse_epme_bin_file

BOUNDS = ("1..3 ions (plain and tagged), 1..2 spins, 1..3 k-point pairs, 1..3 bands, 1..3 modes (thorough 4 ions, 4 pairs, 4 bands), ions and k-points numbered up or down; all "
          "reals, complex values and the free integers (version, minimum band, k-point numbers) symbolic bytes; and with eleven of any one")
OUTSIDE = "files whose block headers are missing; sub-record chains"
ASSUMPTIONS = ["doubles are compared bit for bit"]


def h_file(S, ni, nsp, npair, nb):
    ver, ef = S.bytes(4), S.bytes(8)
    parts = rec(b"EPME") + rec(ver) + rec(b"HEADER") + rec(be_i32(nsp)) + rec(ef)
    lat = S.bytes(72)
    parts += rec(b"ATOM") + rec(be_i32(ni)) + rec(lat)
    ions = {}
    back = S.flag()  # numbered down, from other than one
    for i in range(ni):
        names = ("Si      ", "H       ", "Cl      ")
        if ni == 1:
            names += ("Fe:a    ", "H:abcdef", "C:Cl    ", "Uue     ")
        sp, pos = S.choice(*names) if ni < 4 else names[i % 3], S.bytes(24)
        n = ni + 3 - i if back else i + 1
        parts += rec(be_i32(n)) + rec(sp.encode()) + rec(pos)
        ions[(sp.strip(), n)] = f64s(pos)
    parts += rec(b"KPOINT") + rec(be_i32(2 * npair)) + rec(be_i32(nb))
    kp = {}
    for s in range(nsp):
        for k in range(2 * npair):
            nbk, mb, ev, vel = S.bytes(4), S.bytes(4), S.bytes(8 * nb), S.bytes(24 * nb)
            n = 2 * npair + 4 - k if back else k + 1
            parts += rec(be_i32(s + 1)) + rec(be_i32(n)) + rec(nbk) + rec(mb) + rec(ev) + rec(vel)
            kp[(s + 1, n)] = {"n_bands": i32(nbk), "min_band": i32(mb), "eigenvalues": f64s(ev),
                                  "velocities": f64s(vel)}
    parts += rec(b"EPCOUPLING") + rec(be_i32(npair)) + rec(be_i32(nb * nb))
    ph = []
    for q in range(npair):
        k = S.bytes(8)
        fr, mo, me = S.bytes(8 * 2), S.bytes(16 * 2), S.bytes(16 * nb)
        parts += rec(be_i32(q + 1)) + rec(be_i32(nb)) + rec(be_i32(nb)) + rec(k) + rec(fr) + rec(mo) + rec(me)
        ph.append({"kpts": (i32(k[:4]), i32(k[4:])), "frequencies": f64s(fr), "modes": c128s(mo),
                   "matrix_elements": c128s(me)})
    out = parse_epme_bin_file(S.binfile(parts))
    S.eq(out, {"version": i32(ver), "n_spins": nsp, "fermi_energy": f64(ef), "n_ions": ni, "real_lattice": f64s(lat),
               "ions": ions, "n_kpoint_pairs": npair, "n_bands": nb, "kpoints": kp, "phonons": ph}, "epme_bin")


def h_mismatch(S):
    """Counts that disagree between blocks are an error."""
    which = S.choice("pairs", "bands", "header")
    parts = rec(b"EPME") + rec(be_i32(1)) + rec(b"HEADER") + rec(be_i32(1)) + rec(S.bytes(8))
    parts += rec(b"ATOM") + rec(be_i32(1)) + rec(S.bytes(72)) + rec(be_i32(1)) + rec(b"Si      ") + rec(S.bytes(24))
    parts += rec(b"KPOINT") + rec(be_i32(2)) + rec(be_i32(2))
    for k in range(2):
        parts += rec(be_i32(1)) + rec(be_i32(k + 1)) + rec(be_i32(2)) + rec(be_i32(1)) + rec(S.bytes(16)) + rec(S.bytes(48))
    parts += rec(b"EPCOUPLINX" if which == "header" else b"EPCOUPLING")
    parts += rec(be_i32(2 if which == "pairs" else 1)) + rec(be_i32(9 if which == "bands" else 4))
    for q in range(1):
        parts += rec(be_i32(1)) + rec(be_i32(2)) + rec(be_i32(2)) + rec(S.bytes(8)) + rec(S.bytes(8)) + rec(S.bytes(16))
        parts += rec(S.bytes(16))
    S.raises(ValueError, lambda: parse_epme_bin_file(S.binfile(parts)), f"inconsistent {which}")


def cases(tier):
    q = [(1, 1, 1, 1), (2, 2, 1, 2), (3, 1, 2, 3), (1, 2, 3, 1), (2, 1, 2, 2)]
    q += [(11, 1, 1, 1), (1, 1, 11, 1), (1, 1, 1, 11)]
    if tier != "quick":
        q += [(4, 2, 2, 4), (1, 1, 4, 2), (3, 2, 3, 3), (2, 2, 4, 4)]
    return [(f"i{a}s{b}k{c}b{d}", h_file, dict(ni=a, nsp=b, npair=c, nb=d)) for a, b, c, d in q] + [
        ("mismatch", h_mismatch)]
