"""C08: every magnetic tensor under its own atom, with units."""
from props.common import digits, floats, nz, pad, real, uint

from castep_outputs.parsers.magres_file_parser import parse_magres_file

BOUNDS = ("1..3 atoms (thorough 5) of several species, indices of 1..5 digits (the widest printed without a space), 0..3 records of "
          "every kind (ms, efg, efg_local, efg_nonlocal, isc and its parts), any declared units, calculation entries with any "
          "printable value of up to 4 characters or none, code versions on both sides of 22, old-style block present or absent "
          "with eigenvalues, eigenvectors and summary values; all digits and signs symbolic; twelve atoms (thorough 24)")
OUTSIDE = ("blank lines inside a block; susceptibility and hyperfine records (not read); symmetry operations (not read); "
           "electric field gradients in the old-style block")
ASSUMPTIONS = ["exponents stay within the range of a double"]

ALIAS = {"ms": "magnetic_resonance_shielding", "efg": "electric_field_gradient", "efg_local": "local_electric_field_gradient",
         "efg_nonlocal": "nonlocal_electric_field_gradient", "isc_fc": "j_coupling_fc", "isc_orbital_p": "j_coupling_orbital_p",
         "isc_orbital_d": "j_coupling_orbital_d", "isc_spin": "j_coupling_spin", "isc": "j_coupling_k_total"}
E16 = ("E", "sym", 2)


def calc(S, version="23.1", extra=()):
    text = ["[calculation]\n", "calc_code CASTEP\n", f"calc_code_version  {version}\n"]
    want = {"code": "CASTEP", "code_version": version}
    for k, v in extra:
        text.append("calc_" + k + (" " + v if len(v) else "") + "\n")
        if len(v):
            want[k] = v
    return [*text, "[/calculation]\n"], want


def atoms(S, at):
    lat = [real(S, 1, 10, exp=E16) for _ in range(9)]
    text = ["[atoms]\n", "units lattice Angstrom\n", "lattice    " + "   ".join(lat) + "\n", "units atom Bohr\n", "symmetry x,y,z\n"]
    want = {"units": {"lattice": "Angstrom", "atom": "Bohr"}, "lattice": floats(lat), "coords": {}}
    for sp, i in at:
        p = [real(S, 1, 10, exp=E16) for _ in range(3)]
        text.append("atom " + sp.ljust(6) + "  " + sp + " " + pad(i, 5) + "    " + "   ".join(p) + "\n")
        want["coords"][sp, int(i)] = floats(p)
    return [*text, "[/atoms]\n"], want


def tensor(S, kind, keys, form=(1, 10, E16)):
    v = [real(S, form[0], form[1], exp=form[2]) for _ in range(9)]
    text = kind
    for sp, i in keys:
        text = text + " " + sp + i
    return text + "     " + "   ".join(v) + "\n", floats(v)


def parse(S, blocks, want):
    text = "".join(["#$magres-abinitio-v1.0\n", "# See http://www.ccpnc.ac.uk/ for format definition\n", *blocks])
    S.eq(parse_magres_file(S.file(text)), want, "magres")


def run(S, at, recs, units=(("ms", "ppm"),), version="23.1", form=(1, 10, E16), first=True, w=5):
    """recs: (kind, indices into at)."""
    ct, cw = calc(S, version)
    at_t, aw = atoms(S, at)
    text, want = ["[magres]\n"], {}
    for k, u in units if first else ():
        text.append(f"units {k} {u}\n")
    for kind, ix in recs:
        isc = kind.startswith("isc")
        ks = [(sp, " " + pad(i, w - 1) if isc else pad(i, w)) for sp, i in (at[k] for k in ix)]
        t, v = tensor(S, kind, ks, form)
        text.append(t)
        key = tuple((at[k][0], int(at[k][1])) for k in ix)
        want.setdefault(kind, {})[key if isc else key[0]] = v
    for k, u in units if not first else ():
        text.append(f"units {k} {u}\n")
    if units:
        want["units"] = dict(units)
    want.update({ALIAS[k]: v for k, v in dict(want).items() if k in ALIAS})
    parse(S, [*ct, *at_t, *text, "[/magres]\n"], {"calc": cw, "atoms": aw, "magres": want})


AT = (("H", "1"), ("H", "2"), ("Si", "1"), ("Uue", "12"), ("C", "123"))


def h_kinds(S):
    k = S.choice(*ALIAS)
    ix = [(0, 1), (1, 0), (2, 0)] if k.startswith("isc") else [(0,), (1,), (2,)]
    run(S, AT[:3], [(k, i) for i in ix[:S.count(0, 3)]], units=S.choice((("ms", "ppm"),), (("efg", "au"), ("isc", "10^19.T^2.J^-1")), ()),
        first=S.flag())


def h_mix(S):
    n = S.choice(1, 2, 3) if not S.thorough else S.count(1, 5)
    recs = []
    for k in ("ms", "efg", "efg_local"):
        recs += [(k, (i,)) for i in range(n)]
    recs += [("isc_fc", (i, j)) for i in range(n) for j in range(n) if i <= j][:3]
    run(S, AT[:n], recs, form=S.choice((1, 10, E16), (3, 6, None)))


def h_index(S):
    """Indices of every width, down to no space between species and index."""
    v = S.choice("23.1", "22.11", "21.1", "8.0", "6.1")
    w = 5 if int(v.split(".")[0]) >= 22 else 3
    n = S.choice(*range(1, w + 1))
    sp = S.choice("H", "Si", "Uue")
    at = [(sp, nz(S) + digits(S, n - 1)) if n > 1 else (sp, nz(S)) for _ in range(1)]
    form = S.choice((1, 10, E16), (3, 6, None))
    ct, cw = calc(S, v)
    at_t, aw = atoms(S, at)
    t, val = tensor(S, S.choice("ms", "efg_nonlocal"), [(sp, pad(at[0][1], w))], form)
    kind = t.split()[0]
    res = {kind: {(sp, int(at[0][1])): val}}
    res[ALIAS[kind]] = res[kind]
    parse(S, [*ct, *at_t, "[magres]\n", t, "[/magres]\n"], {"calc": cw, "atoms": aw, "magres": res})


def h_calc(S):
    n = S.choice(0, 1, 4)
    v = S.chars(n, "0123456789abzAZ.|()=+-_") if n else ""
    if n == 4:
        v = v[:2] + " " + v[2:]
    ct, cw = calc(S, S.choice("23.1", "8.0"), [("comment", v), ("xcfunctional", "PBE"), ("cutoffenergy", digits(S, 3) + ".0000 eV")])
    at_t, aw = atoms(S, AT[:1])
    parse(S, S.choice([*ct, *at_t], [*at_t, *ct]), {"calc": cw, "atoms": aw})


def old(S, at, total=True, summary=("Isotropic:", "Anisotropy:", "Asymmetry:")):
    text = ["[magres_old]\n"]
    info, tens = {}, []
    for sp, i in at:
        head = sp + pad(i, 9)
        text += ["============\n", f"Atom: {head}\n", "============\n"]
        d = {}
        text.append(head + " Coordinates      0.000    0.000    0.000   A\n")
        text.append("\n")
        if total:
            m = [[real(S, 2, 4) for _ in range(3)] for _ in range(3)]
            text += ["TOTAL Shielding Tensor\n", "\n", *["       " + "     ".join(r) + "\n" for r in m], "\n"]
            tens.append(tuple(floats(r) for r in m))
        for c in ("xx", "yy", "zz"):
            ev = real(S, 2, 4)
            vec = [real(S, 1, 4) for _ in range(3)]
            text.append(head + f" Eigenvalue  sigma_{c}      " + ev + " (ppm)\n")
            text.append(head + f" Eigenvector sigma_{c}      " + "    ".join(vec) + "\n")
            d.setdefault("eigvenvalue", []).append(float(ev))
            d.setdefault("eigvenvector", []).append(floats(vec))
        text.append("\n")
        for k in summary:
            x = real(S, 2, 4)
            text.append(head + " " + k.ljust(14) + x + (" (ppm)" if k != "Asymmetry:" else "") + "\n")
            d[k[:-1].lower()] = float(x)
        text.append("\n")
        info[sp, int(i)] = d
    return [*text, "[/magres_old]\n"], info, tens


def h_old(S):
    n = S.choice(1, 2, 3)
    ct, cw = calc(S)
    at_t, aw = atoms(S, AT[:n])
    tot = S.flag()
    t, info, tens = old(S, AT[:n], tot, S.choice(("Isotropic:", "Anisotropy:", "Asymmetry:"), ("Isotropic:",), ()))
    for k, d in info.items():
        d["coords"] = aw["coords"][k]
    out = parse_magres_file(S.file("".join([*ct, *at_t, *t])))
    got = out.pop("total_shielding")
    S.eq(out, {"calc": cw, "atoms": aw, "atom_info": info}, "old block")
    if n == 1:
        S.eq(got, tens[0] if tot else None, "total shielding")
    elif tot and isinstance(got, (list, tuple)) and len(got) == 3:
        # every atom has a tensor; what becomes of the others is the case below
        S.eq(got, tens[-1], "total shielding")


def h_old_total(S):
    at = AT[:S.choice(2, 3)]
    ct, _ = calc(S)
    at_t, _ = atoms(S, at)
    t, _, tens = old(S, at)
    got = parse_magres_file(S.file("".join([*ct, *at_t, *t])))["total_shielding"]
    S.check(not (isinstance(got, list) and len(got) == 3), "total shielding: only the last atom's tensor is returned")


def h_many(S):
    """More than ten atoms."""
    n = 24 if S.thorough else 12
    at = [("H" if k % 2 else "Si", str(k // 2 + 1)) for k in range(n)]
    kind = S.choice("ms", "isc")
    run(S, at, [(kind, (k,) if kind == "ms" else (k, n - 1 - k)) for k in range(n)], form=(1, 3, None))


def cases(tier):
    return [("many", h_many), ("kinds", h_kinds), ("mixture", h_mix), ("index", h_index), ("calculation", h_calc), ("old", h_old),
            ("old_total", h_old_total)]
