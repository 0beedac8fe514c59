"""D02: blocks of .cell and .param files."""
from props.common import digits, floats, pint, real, sign, uint

from castep_outputs.parsers.cell_param_file_parser import parse_cell_file, parse_param_file

BOUNDS = ("blocks of 0..3 rows (thorough 5): cell vectors and angles, positions (fractional, absolute with or without units, "
          "intermediate and product; spins, mixtures, tagged and labelled species), weighted and unweighted point lists, "
          "symmetry operations, ionic and nonlinear constraints, species properties, Hubbard U, dispersion parameters, functional "
          "definitions, development code, any other table with or without units; numbers as integers, reals of either sign, "
          "ratios, exponents; every digit and sign symbolic; comments and spacing between rows; tags differing in case only, rows of up to twelve numbers; two blocks in either order; twelve rows (thorough 40) of six kinds")
OUTSIDE = ("empty blocks, species given by atomic number or in lower case, several values per species, several libraries in "
           "species_pot, and what is listed as a known finding (vector spins, the same atom twice in one nonlinear "
           "constraint, BREAK in a k-point path)")
ASSUMPTIONS = []


def num(S, form="real"):
    """Text and value of a number."""
    if form == "int":
        t = uint(S, 1)
        return t, float(t)
    if form == "-int":
        t = sign(S) + uint(S, 2)
        return t, float(t)
    if form == "ratio":
        s, a = sign(S), pint(S, 1)
        return s + a + "/4", float(s + a) / 4
    if form == "+ratio":
        a = pint(S, 2)
        return a + "/8", float(a) / 8
    if form == "exp":
        t = real(S, 1, 2, "sym", (S.chars(1, "eE"), "sym", 2))
        return t, float(t)
    if form == "dot":
        t = real(S, 0, 3, "sym")
        return t, float(t)
    if form == "end":
        t = real(S, 1, 0, "sym")
        return t, float(t)
    t = real(S, 1, 4, "sym")
    return t, float(t)


def row(S, forms):
    r = [num(S, f) for f in forms]
    return "   ".join(t for t, _ in r), tuple(v for _, v in r)


FORMS = (("real",) * 3, ("int",) * 3, ("ratio", "+ratio", "int"), ("exp", "real", "-int"), ("dot", "end", "real"), ("-int", "ratio", "exp"))


def wrap(S, name, lines, style=0):
    """The block's text; style picks case, indentation and comments."""
    b, e, ind, cm = (("%BLOCK ", "%ENDBLOCK ", " ", ""), ("%block  ", "%endblock ", "", "   # " + S.chars(1, "print")),
                     ("  \t     %Block\t", "       %EndBlock  \t", "\t", " !"))[style]
    nm = name.upper() if style == 0 else name
    return b + nm + cm + "\n" + "".join(ind + r + cm + "\n" for r in lines) + e + nm + "\n"


def go(S, text, want, msg):
    S.eq(parse_cell_file(S.file(text)), [want], msg)


def h_table(S):
    """Any table of numbers, with or without units."""
    name = S.choice("lattice_cart", "external_pressure", "some_new_block")
    n = S.count(1, 5 if S.thorough else 3)
    f0 = S.choice(*FORMS)
    rows = [row(S, f0 if k == 0 else FORMS[0]) for k in range(n)]
    u = S.choice(None, "ang", "1/ang", "ev/ang**" + digits(S, 1), S.chars(1, "abc") + S.chars(2, "lower"), "HARTREE/BOHR/E")
    style = S.choice(0, 1, 2) if u is None or u == "ang" else 0
    want = {"data": [v for _, v in rows]}
    if u is not None:
        want["units"] = u
    go(S, wrap(S, name, ([u] if u is not None else []) + [t for t, _ in rows], style), {name: want}, "table")


def h_ragged(S):
    """Rows keep their own length."""
    shape = S.choice((3, 2, 1), (4, 4), (1,), (6, 3), (3, 4, 3), (1, 1, 1), (9, 12))
    rows = [row(S, ("real",) * w) for w in shape]
    name = S.choice("external_pressure", "phonon_kpoint_list")
    go(S, wrap(S, name, [t for t, _ in rows]), {name: {"data": [v for _, v in rows]}}, "rows of different lengths")


SPEC = ("H", "Fe", "Uue", "Fe:a", "H:D1", "C [lab]")


def position(S, spec, forms, extra):
    t, v = row(S, forms)
    d = {"pos": v}
    if "spin" in extra:
        key, sep = extra["spin"]
        s, sv = num(S, extra.get("form", "real"))
        t += "  " + key + sep + s
        d["spin"] = sv
    if "mix" in extra:
        width, f = S.choice((1, "real"), (2, "int"), (1, "exp"))
        i, (w, wv) = pint(S, width), num(S, f)
        w = w if f == "int" else w[1:]
        t += "  " + extra["mix"].replace("@", i).replace("$", w)
        d["mix_index"] = int(i)
        d["weight"] = float(w)
    return spec + "   " + t, d


def h_positions(S):
    """The n-th row of a species is its n-th atom."""
    name = S.choice("positions_frac", "positions_abs", "positions_frac_product", "positions_frac_intermediate", "positions_abs_product",
                    "positions_abs_intermediate")
    a = S.choice(*SPEC)
    order = S.choice((a,), (a, a), (a, "O", a), ("O", a, a), (a, "Si", "O"), ("Fe:a", "Fe:A", "Fe:a"), ("C [lab]", "C [Lab]", "C"))
    absolute = "_abs" in name
    u = S.choice(None, "bohr", "Ang") if absolute else None
    rows, want, cnt = [], {}, {}
    for s in order:
        t, d = position(S, s, FORMS[0], {})
        cnt[s] = cnt.get(s, 0) + 1
        if absolute:
            d["units"] = u or "Ang"
        rows.append(t)
        want[s, cnt[s]] = d
    go(S, wrap(S, name, ([u] if u else []) + rows), {name: want}, "positions")


def h_pos_numbers(S):
    f = S.choice(*FORMS)
    absolute = S.flag()
    t, d = position(S, S.choice("Fe", "Fe:" + S.chars(2, "word")), f, {})
    if absolute:
        d["units"] = "Ang"
    s = t.split()[0]
    name = "positions_abs" if absolute else "positions_frac"
    go(S, wrap(S, name, [t], S.choice(0, 1, 2)), {name: {(s, 1): d}}, "position numbers")


def h_pos_extras(S):
    key = S.choice("SPIN", "spin", "Magmom", "MAGMOM")
    sep = S.choice("= ", "=", " : ", ":", " ", "\t", "  = ")
    ex = {"spin": (key, sep), "form": S.choice("real", "int", "-int", "ratio", "exp") if sep == "= " else "real"}
    which = S.choice("spin", "mix", "both", "other row")
    if which != "spin":
        ex = {"spin": ("SPIN", "= ")} if which in ("both", "other row") else {}
        if which != "other row":
            ex["mix"] = S.choice("MIXTURE:(   @  $)", "MIXTURE:(@ $)", "mixture:( @ $ )", "Mixture = (@   $)", "MIXTURE (@ $)")
    t, d = position(S, "Fe", FORMS[0], ex)
    t2, d2 = position(S, "Fe", FORMS[0], {})
    first = S.flag()
    rows, want = ([t, t2], [d, d2]) if first else ([t2, t], [d2, d])
    go(S, wrap(S, "positions_frac", rows), {"positions_frac": {("Fe", 1): want[0], ("Fe", 2): want[1]}}, "spins and mixtures")


def h_ionic(S):
    n = S.count(1, 3)
    numw = S.choice(1, 2, 3)
    style = S.choice("distinct", "same")
    spec = S.choice("W", "H:D", "Uue", "C [l]")
    rows, want = [], {}
    for k in range(n):
        ind = ("1" if style == "same" else str(k + 1)) + (digits(S, 1) if k == 0 and style == "distinct" else "")
        t, v = row(S, FORMS[0] if k else S.choice(FORMS[0], ("int",) * 3, ("exp",) * 3))
        rows.append(uint(S, numw) + "  " + spec + "  " + ind + "  " + t)
        want.setdefault((spec, int(ind)), []).append(v)
    go(S, wrap(S, "ionic_constraints", rows), {"ionic_constraints": want}, "ionic constraints")


def h_nonlinear(S):
    kinds = {"distance": 2, "bend": 3, "torsion": 4}
    ks = S.choice(("distance",), ("bend",), ("torsion",), ("distance", "torsion"), ("bend", "distance"))
    spec = S.choice("H", "H:D")
    rows, want = [], []
    for k in ks:
        t, atoms = k, {}
        for a in range(kinds[k]):
            i = str(a + 1) + (digits(S, 1) if a == 0 else "")
            v = [S.choice("", "-") + digits(S, 1) if a == 0 and len(ks) == 1 else sign(S) + digits(S, 1) for _ in range(3)]
            s = spec if a % 2 else "C"
            t += "    " + s + "  " + i + "  " + "  ".join(v)
            atoms[s, int(i)] = tuple(map(int, v))
        rows.append(t)
        want.append({"key": k, "atoms": atoms})
    go(S, wrap(S, "nonlinear_constraints", rows, S.choice(0, 1)), {"nonlinear_constraints": want}, "nonlinear constraints")


def h_species(S):
    """One value per species."""
    name = S.choice("species_mass", "species_lcao_states", "species_q", "species_gamma")
    n = S.count(1, 4 if S.thorough else 3)
    form = S.choice("int", "real", "exp", "text")
    u = S.choice(None, "amu", "radsectesla")
    rows, want = [], {}
    for k in range(n):
        sp = ("Fe", "H:D", "O", "Uue:x1")[k]
        if form == "int":
            t = uint(S, 2)
            v = int(t)
        elif form == "text":
            t = v = "lib" + S.chars(1, "alpha") + S.choice("", "." + S.chars(2, "alpha")) if k == 0 else "w" + S.chars(1, "word")
        else:
            t, v = num(S, form)
        rows.append(sp + "   " + t)
        want[sp] = v
    full = {"data": want}
    if u:
        full["units"] = u
    go(S, wrap(S, name, ([u] if u else []) + rows, S.choice(0, 1) if n == 1 else 0), {name: full}, "species property")


def h_hubbard(S):
    n = S.count(1, 3)
    u = S.choice(None, "eV", "Ha")
    rows, want = [], {"units": u or "eV"}
    for k in range(n):
        sp = ("Ni", "U:t", "Sm")[k]
        ix = S.choice(None, 1, 2) if k == 0 else None
        orbs = S.choice(("d",), ("s", "p"), ("d", "f")) if k == 0 else ("f",)
        key = sp
        t = sp
        if ix:
            i = pint(S, ix)
            t += "  " + i
            key = (sp, int(i))
        d = {}
        for o in orbs:
            v = real(S, S.choice(1, 2) if n == 1 else 1, 2, S.choice("", "-") if n == 1 else "")
            t += "   " + o + S.choice(": ", ":", " : ") + v if n == 1 else "   " + o + ": " + v
            d[o] = float(v)
        rows.append(t)
        want[key] = d
    go(S, wrap(S, "hubbard_u", ([u] if u else []) + rows), {"hubbard_u": want}, "Hubbard U")


def h_sedc(S):
    n = S.count(1, 3)
    u = S.choice(None, ("eV", "Ang"), ("Ha", "bohr"))
    cols = S.choice(("C6",), ("C6", "R0"), ("C6", "R0", "alpha", "Neff"))
    rows, want = [], {"units": {"energy": u[0] if u else "eV", "distance": u[1] if u else "Ang"}}
    for k in range(n):
        sp = ("H", "Ti:Tag", "Uue")[k]
        vs = [real(S, 1, 3, S.choice("", "-") if n == 1 else "") for _ in cols]
        rows.append(sp + "".join(" " + c + ":" + v for c, v in zip(cols, vs)))
        want[sp] = {c: float(v) for c, v in zip(cols, vs)}
    go(S, wrap(S, "sedc_custom_params", (["   ".join(u)] if u else []) + rows, S.choice(0, 1) if n == 1 else 0),
       {"sedc_custom_params": want}, "dispersion parameters")


def h_symops(S):
    n = S.count(1, 4 if S.thorough else 3)
    f = S.choice(*FORMS)
    comments = S.choice("", "# SYM OP " + digits(S, 1), "!")
    rows, want = [], []
    for k in range(n):
        m = [row(S, f if (k == 0 and j in (0, 3)) else FORMS[0]) for j in range(4)]
        rows += ([comments] if comments else []) + [t for t, _ in m]
        want.append({"r": [v for _, v in m[:3]], "t": m[3][1]})
    go(S, wrap(S, "symmetry_ops", rows), {"symmetry_ops": want}, "symmetry operations")


def h_xc(S):
    want = {"xc": {}, "params": {}}
    rows = []
    order = S.choice((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (0,), (2, 0), (3, 1))
    c = S.choice(str.upper, str.lower)
    for k in order:
        if k == 0:
            for name in ("oep", "LIBXC_MGGA_XC_ZLP")[:S.choice(1, 2) if len(order) == 1 else 2]:
                t, v = num(S, S.choice("real", "end", "int", "exp") if len(order) == 1 else "real")
                rows.append(name + "  " + t)
                want["xc"][name.lower()] = v
        elif k == 1:
            t, v = num(S, "real")
            rows.append(c("nlxc_screening_length") + "  " + t)
            want["params"]["nlxc_screening_length"] = v
        elif k == 2:
            w = S.choice("THOMAS-FERMI", "ERROR" + S.chars(2, "alpha"))
            rows.append(c("nlxc_screening_function") + " " + w)
            want["params"]["nlxc_screening_function"] = w
        else:
            name = ("nlxc_ppd_int", "nlxc_divergence_corr")[k - 3]
            w = S.choice(("ON", True), ("off", False), ("On", True))
            rows.append(c(name) + "  " + w[0])
            want["params"][name] = w[1]
    S.eq(parse_param_file(S.file(wrap(S, "xc_definition", rows, S.choice(0, 1) if len(order) == 1 else 0))), [{"xc_definition": want}],
         "functional definition")


def h_species_pot(S):
    """File names and libraries are kept as written."""
    n = S.count(0, 2)
    lib = S.choice(None, "C19", "QC5")
    rows, want = [], {}
    for k in range(n):
        sp = ("Fe", "H:D")[k]
        f = S.chars(1, "alpha") + S.chars(2, "word") + S.choice(".usp", "_00PBE.recpot", "")
        rows.append(sp + "   " + f)
        want[sp] = f
    if lib:
        rows.insert(S.count(0, n), lib)
        want[None] = lib
    if not rows:
        rows, want = ["C9"], {None: "C9"}
    go(S, wrap(S, "species_pot", rows, S.choice(0, 1)), {"species_pot": want}, "pseudopotential files")


def h_devel(S):
    """Development code: values, words, groups and data."""
    parts = S.choice(("value",), ("word",), ("group",), ("values",), ("data",), ("group", "value"), ("word", "group"), ("group2",), ("clash",), ("clash word",),
                     ("colon",), ("value", "word", "group", "data"))
    rows, want = [], {}
    for p in parts:
        t, v = num(S, S.choice("real", "int", "exp") if len(parts) == 1 else "int")
        if "." not in t:
            v = int(t)
        if p == "value":
            k = "V" + S.chars(1, "alpha")
            rows.append(k + S.choice("=", ":") + t)
            want[k.lower()] = v
        elif p == "values":
            w = S.choice("T", "False", "name", "a.b-c", "./x:y", "p=q")
            rows.append("n1=" + t + S.choice(" ", "\n", ";", "; ") + "n1x:" + w)
            want["n1"] = v
            want["n1x"] = {"T": True, "False": False}.get(w, w)
        elif p == "word":
            w = "w" + S.chars(S.choice(1, 2), "abXYZ01289") if len(parts) == 1 else "wd"
            rows.append(w)
            want[w.lower() if len(parts) == 1 else w] = None
        elif p == "group":
            sep = S.choice(" ", "\n") if len(parts) <= 2 else " "
            g = S.choice("PP", "GEOM1")
            rows.append(g + ":" + sep + "a=" + t + sep + "bb:T" + sep + ":END" + g)
            want[g.lower()] = {"a": v, "bb": True}
        elif p == "group2":
            u = digits(S, 1)
            again = S.choice("a1", "a")
            rows += ["PP: a=" + t + " :ENDPP", "PP: " + again + "=" + u + " :endPP"]
            want["pp"] = {"a": v, "a1": int(u)} if again == "a1" else {"a": int(u)}
        elif p == "clash":
            rows += ["PP=" + S.choice("T", "t"), "PP: x=" + t + " :ENDPP"]
            want.update({"_pp": True, "pp": {"x": v}})
        elif p == "clash word":
            rows += ["PP: x=" + t + " :ENDPP", S.choice("PP", "pp", "Pp"), "qq"]
            want.update({"_pp": None, "pp": {"x": v}, "qq": None})
        elif p == "colon":
            rows.append("PP: f=a:b g:c=d :ENDPP file=q:w")
            want.update({"pp": {"f": "a:b", "g": "c=d"}, "file": "q:w"})
        else:
            m = S.count(1, 3)
            vs = [digits(S, 1) for _ in range(m)]
            rows += ["DW:", "Si " + t] + vs + [":ENDDW"]
            want["dw"] = {"data": ["Si", v, *map(int, vs)]}
    S.eq(parse_param_file(S.file(wrap(S, "devel_code", rows, S.choice(0, 1, 2) if len(parts) == 1 else 0))), [{"devel_code": want}], "development code")


def h_two(S):
    """Two blocks, in either order, with a keyword anywhere."""
    r1, r2 = row(S, FORMS[0]), row(S, FORMS[1])
    k = uint(S, 2)
    a = wrap(S, "lattice_abc", [r1[0], r2[0]]), {"lattice_abc": {"data": [r1[1], r2[1]]}}
    t, d = position(S, "Fe", FORMS[0], {})
    others = [(wrap(S, "positions_frac", [t]), {"positions_frac": {("Fe", 1): d}}),
              (wrap(S, "species_mass", ["Fe " + r1[0].split()[0]]), {"species_mass": {"data": {"Fe": r1[1][0]}}}),
              (wrap(S, "species_pot", ["Fe x.usp"]), {"species_pot": {"Fe": "x.usp"}}),
              (wrap(S, "xc_definition", ["hf " + r1[0].split()[0]]), {"xc_definition": {"xc": {"hf": r1[1][0]}, "params": {}}}),
              (wrap(S, "symmetry_ops", [r1[0]] * 4), {"symmetry_ops": [{"r": [r1[1]] * 3, "t": r1[1]}]}),
              (wrap(S, "ionic_constraints", ["1 H 1 " + r1[0]]), {"ionic_constraints": {("H", 1): [r1[1]]}}),
              (wrap(S, "hubbard_u", ["H d:" + r1[0].split()[0]]), {"hubbard_u": {"units": "eV", "H": {"d": r1[1][0]}}})]
    b = S.choice(*others)
    first = S.flag()
    at = S.count(0, 2)
    seq = [a, b] if first else [b, a]
    seq.insert(at, ("fix " + k + "\n", {"fix": int(k)}))
    text, want = "", {}
    for tx, w in seq:
        text += tx + S.choice("", "\n") if at == 0 else tx
        want.update(w)
    go(S, text, want, "blocks do not interfere")


# ------------------------------------------------------------- known findings
def h_vector_spin(S):
    d = digits(S, 1)
    r = parse_cell_file(S.file("%block positions_frac\nFe 0 0 0 SPIN= " + d + " 0 1\n%endblock positions_frac\n"))[0]
    S.check(r["positions_frac"]["Fe", 1]["spin"] == (float(d), 0.0, 1.0), "only the first component of a vector spin is returned")


def h_same_atom(S):
    i = pint(S, 1)
    a, b = sign(S) + digits(S, 1), sign(S) + digits(S, 1)
    r = parse_cell_file(S.file("%block nonlinear_constraints\ndistance H " + i + " " + a + " 0 0 H " + i + " " + b
                               + " 1 0\n%endblock nonlinear_constraints\n"))[0]
    S.check(len(r["nonlinear_constraints"][0]["atoms"]) == 2, "two images of one atom in a nonlinear constraint become one")


def h_break(S):
    a, b = row(S, FORMS[0]), row(S, FORMS[0])
    r = parse_cell_file(S.file("%block bs_kpoint_path\n" + a[0] + "\nBREAK\n" + b[0] + "\n%endblock bs_kpoint_path\n"))[0]
    S.check("units" not in r["bs_kpoint_path"], "BREAK in a k-point path is reported as its units")


def h_many(S):
    """More than ten rows of a block."""
    n = 40 if S.thorough else 12
    name = S.choice("table", "positions_frac", "ionic_constraints", "symmetry_ops", "species_mass", "hubbard_u")
    rows, want = [], {}
    if name == "table":
        r = [row(S, FORMS[0]) for _ in range(n)]
        go(S, wrap(S, "kpoint_path", [t for t, _ in r]), {"kpoint_path": {"data": [v for _, v in r]}}, "long table")
        return
    if name == "symmetry_ops":
        m = [[row(S, FORMS[0]) for _ in range(4)] for _ in range(n)]
        go(S, wrap(S, name, [t for x in m for t, _ in x]), {name: [{"r": [v for _, v in x[:3]], "t": x[3][1]} for x in m]}, "many operations")
        return
    for k in range(n):
        sp = "H:a" + "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMN"[k]
        if name == "positions_frac":
            t, want["Fe", k + 1] = position(S, "Fe", FORMS[0], {})
        elif name == "ionic_constraints":
            t, v = row(S, FORMS[0])
            t = str(k + 1) + "  W  " + str(k + 1) + "  " + t
            want["W", k + 1] = [v]
        else:
            v = real(S, 1, 2, "")
            t = sp + ("   d: " if name == "hubbard_u" else "   ") + v
            want[sp] = {"d": float(v)} if name == "hubbard_u" else float(v)
        rows.append(t)
    if name == "species_mass":
        want = {"data": want}
    elif name == "hubbard_u":
        want["units"] = "eV"
    go(S, wrap(S, name, rows), {name: want}, "many rows")


def cases(tier):
    return [("many", h_many), ("table", h_table), ("ragged", h_ragged), ("positions", h_positions), ("pos_numbers", h_pos_numbers),
            ("pos_extras", h_pos_extras), ("ionic", h_ionic), ("nonlinear", h_nonlinear), ("species", h_species),
            ("hubbard", h_hubbard), ("sedc", h_sedc), ("symops", h_symops), ("xc", h_xc), ("species_pot", h_species_pot),
            ("devel", h_devel), ("two", h_two), ("vector_spin", h_vector_spin), ("same_atom", h_same_atom), ("break", h_break)]
