"""B03: electrostatic potential files."""
from props.common import be_i32, c128s, i32, rec

from castep_outputs.bin_parsers.cst_esp_file_parser import parse_cst_esp_file

BOUNDS = ("grids of up to 4x3x3 points (thorough 6x4x4) and with eleven columns, potential alone or with the meta-GGA potential, symbolic spin "
          "count, every value byte symbolic; column order as CASTEP writes it")
OUTSIDE = "columns out of order; grids with no columns; sub-record chains"
ASSUMPTIONS = ["doubles are compared bit for bit"]


def h_grid(S, nx, mgga):
    ny, nz = S.choice((1, 1), (2, 1), (1, 2), (3, 3), (2, 3)) if not S.thorough else S.choice((1, 1), (2, 1), (1, 3), (4, 4))
    sp = S.bytes(4)
    parts = rec(sp) + rec(be_i32(nx), be_i32(ny), be_i32(nz))
    grids = []
    for _ in range(1 + mgga):
        g = []
        for x in range(nx):
            col = []
            for y in range(ny):
                b = S.bytes(16 * nz)
                parts += rec(be_i32(x + 1), be_i32(y + 1), b)
                col.append(c128s(b))
            g.append(col)
        grids.append(g)
    out = parse_cst_esp_file(S.binfile(parts))
    e = {"n_spins": i32(sp), "grid": (nx, ny, nz), "esp": grids[0]}
    if mgga:
        e["mgga"] = grids[1]
    S.eq(out, e, "cst_esp")


def cases(tier):
    return [(f"grid{nx}{'m' * m}", h_grid, dict(nx=nx, mgga=m)) for nx in ((1, 2, 3, 4, 11) if tier == "quick" else (1, 2, 3, 4, 5, 6, 11))
            for m in (0, 1)]
