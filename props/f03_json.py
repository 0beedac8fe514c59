"""F03: everything parsed can be written as JSON without loss."""
from props.castep import C
from props.castep_file import ORDER, SECTIONS
from props.castep_steps import E05
from props.samples import SOURCES, capture, sources

from castep_outputs import parse_single
from castep_outputs.bin_parsers import PARSERS as BIN_PARSERS
from castep_outputs.parsers import PARSERS
from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
from castep_outputs.utilities.utility import json_safe, normalise

BOUNDS = ("files of every kind as in the checks of their parsers (B03, B04, C01, C03-C09, D01, D02), with one departure from the plain form; "
          "every section of a .castep file alone (one departure) and in runs of eight, molecular-dynamics, geometry and transition-state steps; "
          "the flat output of testing mode for files of every kind, in plain form (thorough: and with one departure); "
          "every digit, sign and label symbolic")
OUTSIDE = "numbers that are not finite; two dictionary keys that differ only in type"
ASSUMPTIONS = []

ALL = {**PARSERS, **BIN_PARSERS}


def name_of(key):
    """Tuples of keys become names joined by underscores."""
    if isinstance(key, (tuple, list)):
        return "_".join([str(y) for x in key for y in (x if isinstance(x, tuple) else (x,))])
    return key


def same(S, raw, js, path):
    if isinstance(raw, dict):
        S.check(isinstance(js, dict), f"{path}: a dictionary stays one")
        S.check(len(js) == len(raw), f"{path}: {len(raw)} entries, {len(js)} written")
        for (k, v), (kk, vv) in zip(raw.items(), js.items()):
            S.check(kk is None or isinstance(kk, (str, int)), f"{path}: a key that JSON can hold")
            S.eq(kk, name_of(k), f"{path}: key")
            same(S, v, vv, path if isinstance(k, tuple) else f"{path}.{k}")
    elif isinstance(raw, complex):
        S.check(isinstance(js, dict) and list(js) == ["real", "imag"], f"{path}: both parts of a complex number")
        S.eq((js["real"], js["imag"]), (raw.real, raw.imag), f"{path}: complex number")
    elif isinstance(raw, (list, tuple)):
        S.check(isinstance(js, (list, tuple)) and len(js) == len(raw), f"{path}: as many values")
        for v, w in zip(raw, js):
            same(S, v, w, path)
    else:
        S.check(raw is None or isinstance(raw, (str, int, float, bool)), f"{path}: a type JSON can hold")
        S.eq(js, raw, path)


def both(S, kind, text, make=None):
    make = make or S.file
    raw = ALL[kind](make(text))
    js = parse_single(make(text), ALL[kind], "json")
    same(S, raw, js, kind)


def file_of(kind):
    def run(S):
        fn, kw = S.choice(*sources(kind))
        text = capture(S, fn, None if S.thorough else 2, **kw)
        if text is not None:
            both(S, kind, text, S.binfile if kind in BIN_PARSERS else S.file)
    return run


def section(n):
    def run(S):
        f = E05.get(n) or SECTIONS[n]
        text, _ = f(C(S, (2 if S.thorough else 1) if n not in ("md", "geom", "scf") else 0))
        both(S, "castep", text)
    return run


def run_of(names):
    def run(S):
        text = ""
        for n in names:
            text = text + SECTIONS[n](C(S, 0))[0] + "\n"
        both(S, "castep", text)
    return run


def leaves(x, path):
    if isinstance(x, dict):
        return [y for k, v in x.items() for y in leaves(v, f"{path}_{k}" if path != "" else k)]
    if isinstance(x, (list, tuple)):
        return [y for k, v in enumerate(x) for y in leaves(v, f"{path}_{k}" if path != "" else str(k))]
    return [(path, x)]


def flat(kind):
    """The flat output of testing mode has every value the JSON output has."""
    def run(S):
        fmt = S.choice("json", "print")
        if kind == "castep":
            n = S.choice(*range(0, len(ORDER), 8))
            text = "".join([SECTIONS[x](C(S, 0))[0] + "\n" for x in ORDER[n:n + 8]]) + (SECTIONS["build_info"](C(S, 0))[0] if S.flag() else "")
            js = normalise(parse_castep_file(S.file(text), Filters.TESTING), {dict: json_safe, complex: json_safe})
        else:
            fn, kw = S.choice(*sources(kind))
            text = capture(S, fn, 1 if S.thorough else 0, **kw)
            if text is None:
                S.check(True, "nothing to parse")
                return
            js = parse_single((S.binfile if kind in BIN_PARSERS else S.file)(text), kind, "json")
        got = parse_single((S.binfile if kind in BIN_PARSERS else S.file)(text), kind, fmt, testing=True)
        if isinstance(js, (list, tuple)):
            S.check(isinstance(got, (list, tuple)) and len(got) == len(js), f"{kind}: a flat dictionary per run")
        for g, j in zip(got, js) if isinstance(js, (list, tuple)) else [(got, js)]:
            S.eq(g, dict(leaves(j, "")), f"{kind}: flat")
    return run


def cases(tier):
    return ([("file_" + k, file_of(k)) for k in SOURCES] + [("castep_" + n, section(n)) for n in dict.fromkeys([*SECTIONS, *E05])] +
            [("flat_" + k, flat(k)) for k in [*SOURCES, "castep"]] +
            [("castep_from_" + ORDER[i], run_of(ORDER[i:i + 8])) for i in range(0, len(ORDER), 8)])
