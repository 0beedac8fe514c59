"""Sections of .castep files to be put together (see castep.py)."""
from props.castep import C, E01, clean, merge
from props.castep_atoms import E03
from props.castep_response import E04
from props.castep_scf import E02
from props.castep_steps import E05, EQ, as_step, contents, final_configuration, finished, geom_table, min_table
from props.common import EXP3, pad

from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file


def md(c):
    """Steps alone; what precedes them is E05's."""
    text, steps = "", []
    for k in range(c.n(2, 1)):
        t, w = contents(c, ("positions", "energies", "forces", "md_data"))
        text = text + EQ + " Starting MD iteration" + pad(str(k + 1), 11) + " ...\n" + EQ + "\n" + t + "\n ... finished MD iteration" + pad(str(k + 1), 11) + "\n"
        steps.append(as_step(w))
    return text + "\n Finished MD\n\n", {"md": steps}


def geom(c):
    text, its = "", [{}]
    for k in range(c.n(2, 1)):
        t, w = contents(c, ("cell", "positions", "energies", "forces"))
        e, x = finished(c, "BFGS", k + 1)
        g, gw = geom_table(c, "BFGS")
        m, mw = min_table(c, "BFGS")
        text = text + EQ + " Starting BFGS iteration" + pad(str(k + 1), 11) + " ...\n" + EQ + "\n" + m + "\n\n" + t + e + g + "\n"
        its.append(as_step(w) | {"enthalpy": [x], "minimisation": [mw, gw]})
    return text + " BFGS: Geometry optimization completed successfully.\n\n Finished BFGS\n", {"geom_opt": {"iterations": its}}


def trial(c):
    """The length of a step, outside the step's own part of the file."""
    m, x = c.v("LBFGS", "BFGS", "TPSD"), c.r(3, 6, "")
    return " " + m + ": starting iteration" + pad(c.v("1", c.pi(3)), 10) + " with trial guess (lambda=" + pad(x, 10) + ")\n", {"geom_opt": {"trial": [float(x)]}}


def final(c):
    t, w = final_configuration(c, c.v("BFGS", "LBFGS", "FIRE"))
    return t, {"geom_opt": {"final_configuration": w}}


def extra(c):
    """The contents of another file, as the tests' files have them."""
    f = c.rs(4, 1, 12, exp=EXP3)
    text = "<BEGIN hug>\n# Compression   Temperature(K)   Pressure(GPa)   Energy(eV)\n" + "".join([pad(x, 24) for x in f]) + "\n<END hug>\n"
    return text, {"external_files": {"hug": dict(zip(("compression", "temperature", "pressure", "energy"), [(float(x),) for x in f]))}}


SECTIONS = E01 | E02 | E03 | E04 | {"md_data": E05["md_data"], "md": md, "geom": geom, "final": final, "trial": trial, "constraints": E05["constraints"],
                                    "deloc": E05["deloc"], "tss": E05["tss"], "extra": extra}
SECTIONS = {n: f for n, f in SECTIONS.items() if n != "two_trials"}

# A calculation prints steps later, and then the first takes over what has come before them: E05.
ORDER = [n for n in SECTIONS if n not in ("md", "geom", "final", "build_info")]
ORDER = ["build_info", "geom", "final", "md", *ORDER]


def after(want, name, w):
    """What a run says when a section follows."""
    if name == "geom" and "iterations" not in want.get("geom_opt", {}):
        # the first iteration starts from what has been printed, of which the structure is the run's as well
        want = dict(want)
        first = {k: want.pop(k) for k in ("enthalpy", "scf", "forces", "stresses", "minimisation") if k in want}
        first |= {n: want[k] for k, n in (("initial_cell", "cell"), ("initial_positions", "positions")) if k in want}
        w = {"geom_opt": {"iterations": [first, *w["geom_opt"]["iterations"][1:]]}}
    elif name == "geom":
        w = {"geom_opt": {"iterations": [*want["geom_opt"]["iterations"], *w["geom_opt"]["iterations"][1:]]}}
    return merge(want, w)


def repeated(names, free=1):
    """Each of these sections printed twice, one of them in another form."""
    def run(S):
        a = S.choice(*names)
        plain, form = C(S, 0), C(S, free)
        text, want = "", {}
        for c in S.choice((plain, form), (form, plain)):
            t, w = SECTIONS[a](c)
            text, want = text + t + "\n", after(want, a, w)
        S.eq([clean(dict(g)) for g in parse_castep_file(S.file(text), Filters.FULL | Filters.TEST_EXTRA_DATA)], [clean(want)], f"two of {a}")
    return run
