"""D03: on-the-fly pseudopotential strings."""
from props.common import digits, pint, real, uint

from castep_outputs.parsers.castep_file_parser import parse_castep_file
from castep_outputs.parsers.cell_param_file_parser import parse_cell_file

BOUNDS = ("strings of the documented grammar with 1..3 beta functions (thorough 5) of 0..3 projectors each, every projector type, "
          "radii, energies (absolute or relative, either sign) and deltas present or absent, with or without beta radius and "
          "inner radius, numbers as integers or reals of 1..2 + 0..3 digits, 0..2 flags, adjustments and test configurations in "
          "any order, polynomial fit, local energy; strings with fields missing or with an unclosed or malformed bracket; all digits symbolic; read from .cell and .castep files")
OUTSIDE = ("negative local energies (the grammar gives '-' there to the polynomial fit), strings outside the grammar; whether an energy was "
           "written absolute or relative is only visible in the returned string; the string of a pseudopotential report "
           "is a known finding")
ASSUMPTIONS = []


def num(S, form):
    """Unsigned number as the grammar has it."""
    if form == 0:
        return uint(S, 1)
    if form == 1:
        return uint(S, 2)
    if form == 2:
        return real(S, 1, 2, "")
    if form == 3:
        return real(S, 0, 2, "")
    if form == 4:
        return real(S, 2, 3, "")
    return real(S, 1, 0, "")


def projector(S, typ, parts, form=2):
    t, want = typ, {"type": typ}
    if "r" in parts:
        v = num(S, form)
        t += v
        want["beta_rc"] = float(v)
    for p in ("=", "=+", "=-", "+", "-"):
        if p in parts:
            v = num(S, form)
            t += p + v
            want["beta_e"] = float(p.lstrip("=") + v)
    if "@" in parts:
        v = num(S, form)
        t += "@" + v
        want["beta_delta"] = float(v)
    return t, want


def beta(S, orb, ang, projs):
    t = orb + str(ang)
    ps = []
    for p in projs:
        s, w = projector(S, *p)
        t += s
        ps.append(w)
    return t, {"orbital": int(orb), "shell": "spdf"[ang], "shell_ind": ang, "projectors": ps}


def string(S, betas, radii=2, two=True, form=2, flags=None, adj=None, test=None, order="fat", poly="", local=None):
    loc = digits(S, 1)
    want = {}
    t = ""
    if local:
        e = num(S, form)
        t += e + "="
        want["local_energy"] = float(e)
    t += poly + loc if poly == "-" else loc + poly[1:] if poly else loc
    want["local_channel"] = float(loc)
    want["poly_fit"] = bool(poly)
    names = ["core_radius", *(["beta_radius", "r_inner"] if two else []), "coarse", "medium", "fine"]
    for n in names:
        v = num(S, form if n == "core_radius" or not two else 2 if n in ("beta_radius", "r_inner") else 0)
        t += "|" + v
        want[n] = float(v)
    t += "|"
    bs = [beta(S, *b) for b in betas]
    bt = ":".join(b for b, _ in bs)
    t += bt
    want["beta_function_string"] = bt
    want["beta_functions"] = [w for _, w in bs]
    for o in order:
        if o == "f" and flags is not None:
            t += "(" + ",".join(flags) + ")"
            want["flags"] = list(flags)
        elif o == "a" and adj is not None:
            t += "{" + ",".join(adj) + "}"
            want["adjustment"] = list(adj)
        elif o == "t" and test is not None:
            t += "[" + ",".join(test) + "]"
            want["testing"] = list(test) or [""]
    want["print"] = test is not None
    want["string"] = t
    return t, want


def via_cell(S, t, spec="Fe"):
    return parse_cell_file(S.file("%BLOCK SPECIES_POT\n" + spec + "  " + t + "\n%ENDBLOCK SPECIES_POT\n"))[0]["species_pot"][spec]


def via_castep(S, t, spec="Fe"):
    r = parse_castep_file(S.file("                          Files used for pseudopotentials:\n" + " " * 36 + spec + " " + t + "\n\n"))[0]
    return r["species_properties"][spec]["pseudopot"]


def both(S, t, want, msg, castep=False):
    S.eq(via_cell(S, t), want, msg)
    if castep:
        S.eq(via_castep(S, t), want, msg + " in .castep")


def h_radii(S):
    t, w = string(S, [(pint(S), S.choice(0, 1, 2, 3), ())], two=S.flag(), form=S.choice(0, 1, 2, 3, 4, 5), local=S.flag(),
                  poly=S.choice("", "-", "x-"))
    both(S, t, w, "radii and energies", True)


def h_projector(S):
    typ = S.choice("U", "N", "G", "H", "L", "P")
    parts = S.choice((), ("r",), ("r", "="), ("r", "=+"), ("r", "=-"), ("r", "+"), ("r", "-"), ("+",), ("=-",), ("@",), ("r", "@"), ("r", "-", "@"),
                     ("=", "@"))
    form = S.choice(0, 2, 3, 4) if typ in "UN" else 2
    t, w = string(S, [(pint(S), S.choice(0, 3) if typ == "U" else 1, [(typ, parts, form)])], two=False)
    both(S, t, w, "projector", typ == "U")


def h_betas(S):
    """Every projector of every beta function, in order."""
    shapes = [((),), ((), ()), (("U",), ()), (("U", "U"), ("N",)), ((), ("L", "G", "G"), ("N",)), (("N", "H"), ("U", "U"), ("P",))]
    if S.thorough:
        shapes += [(("U", "U"), ("N", "H"), (), ("L", "G", "G"), ("P",)), ((), (), (), (), ("U",))]
    shape = S.choice(*shapes)
    which = S.choice((), ("r",), ("r", "+"), ("r", "-"), ("=-", "@"))
    bs = [(pint(S), (k + len(shape)) % 4, [(p, which if (k + j) % 2 == 0 else ("r",) if which else ()) for j, p in enumerate(ps)])
          for k, ps in enumerate(shape)]
    t, w = string(S, bs, two=S.flag())
    both(S, t, w, "beta functions", not which)


def shell(S, frac=True):
    """A shell and its occupation."""
    return digits(S, 1) + S.chars(1, "spdf") + (S.choice("", digits(S, 1), digits(S, 2), real(S, 1, 1, ""), real(S, 0, 2, ""))
                                                if frac else real(S, 1, 1, ""))


def h_flags(S):
    qc = "qc=" + S.choice(digits(S, 1), real(S, 1, 1, ""))
    flags = S.choice(None, ("tm",), (qc,), ("tm", "nonlcc"), (qc, "extra"))
    order = S.choice("fat", "tfa", "atf", "fta")
    adj = S.choice(None, 1, 2, 3)
    adj = None if adj is None else [shell(S, False) for _ in range(adj)]
    test = S.choice(None, 0, 1, 2, 4)
    test = None if test is None else [shell(S, False) for _ in range(test)]
    t, w = string(S, [("3", 0, [("U", ())]), ("4", 1, [])], two=False, flags=flags, adj=adj, test=test, order=order)
    both(S, t, w, "flags, adjustments and tests")


def h_shells(S):
    kind = S.choice("adj", "test")
    v = [shell(S), shell(S)]
    t, w = string(S, [("3", 2, [])], two=True, **({"adj": v} if kind == "adj" else {"test": v}))
    both(S, t, w, "shell occupations")


def h_several(S):
    """Several strings and a file name in one block stay apart."""
    n = S.count(2, 3)
    rows, want = "", {}
    for k in range(n):
        sp = ("Fe", "H:D", "O")[k]
        t, w = string(S, [(str(k + 1), k, [("UNG"[k], ("r",))])], two=k == 1, flags=("tm",) if k == 2 else None)
        rows += " " + sp + "  " + t + "\n"
        want[sp] = w
    at = S.flag()
    extra = " Si  Si_00.usp\n"
    want["Si"] = "Si_00.usp"
    r = parse_cell_file(S.file("%block species_pot\n" + (extra + rows if at else rows + extra) + "%endblock species_pot\n"))[0]["species_pot"]
    S.eq(r, want, "several species")


def h_castep(S):
    n = S.count(1, 3)
    rows, want = "", {}
    for k in range(n):
        sp = ("Fe", "Uue", "O")[k]
        kind = S.choice("string", "file") if k < 2 else "string"
        if kind == "file":
            t = w = S.chars(1, "alpha") + S.chars(2, "word") + ".recpot"
        else:
            t, w = string(S, [("3", k, [("U", ())]), ("4", 0, [])], two=k != 1, flags=("qc=" + digits(S, 1),) if k == 0 else None)
        rows += " " * 33 + sp.rjust(4) + " " + t + "\n"
        want[sp] = {"pseudopot": w}
    r = parse_castep_file(S.file("                          Files used for pseudopotentials:\n" + rows + S.choice("\n", " \n")))[0]
    S.eq(r["species_properties"], want, "pseudopotentials used")


def h_report(S):
    t, w = string(S, [("3", 1, [("U", ())])], two=False)
    r = parse_castep_file(S.file("   " + "=" * 60 + "\n   | Pseudopotential Report - Date of generation 14-07-2023   |\n   " + "-" * 60
                                 + "\n   | Element: Mn Ionic charge: 15.00 Level of theory: LDA     |\n   | \"" + t + "\"          |\n   "
                                 + "=" * 60 + "\n"))[0]
    S.check("detail" in r["pspot_detail"][0], "the string of a pseudopotential report is not returned")


def h_malformed(S):
    """A string that is cut short is kept as text or reported, not guessed at."""
    how = S.choice("fields", "bracket", "brace", "round", "test", "adjustment", "both")
    t, _ = string(S, [("3", S.choice(1, 2), [("U", S.choice((), ("r",)))])], two=how == "fields" and S.flag(), form=S.choice(0, 2),
                  local=S.flag(), poly=S.choice("", "-"))
    if how == "fields":
        f = t.split("|")
        k = S.count(1, 4)  # With five, the longer form reads as the shorter one
        t = "|".join(f[:k]) + "|" + (f[-1] if S.flag() else "")
        S.eq(via_cell(S, t), t, "a string that lacks fields is kept as text")
        return
    elif how == "test":
        t += "[" + digits(S, 1) + S.chars(1, "spdf") + "," + "]"
    elif how == "adjustment":
        t += "{" + S.choice("", digits(S, 1), digits(S, 1) + S.chars(1, "spdf") + ",") + "}"
    elif how == "both":
        t += "(tm)[" + shell(S) + "{" + shell(S) + "}"
    else:
        t += {"bracket": "[", "brace": "{", "round": "("}[how] + ("tm" if how == "round" else shell(S))
    S.raises(ValueError, lambda: via_cell(S, t), "a string cut short is an error")


def cases(tier):
    return [("malformed", h_malformed), ("radii", h_radii), ("projector", h_projector), ("betas", h_betas), ("flags", h_flags), ("shells", h_shells),
            ("several", h_several), ("castep", h_castep), ("report", h_report)]
