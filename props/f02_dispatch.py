"""F02: every parser accepts a path or an open file and is chosen by name."""
import io
import json

import castep_outputs
from castep_outputs import parse_single
from castep_outputs.bin_parsers import PARSERS as BIN_PARSERS
from castep_outputs.cli.castep_outputs_main import parse_all
from castep_outputs.parsers import PARSERS

from props.castep import C
from props.castep_file import SECTIONS
from props.samples import SOURCES, capture, sources

BOUNDS = ("a file of each of the 23 kinds, every digit and sign symbolic (thorough: with one departure from the plain form), by each of nine "
          "routes: the kind's parser with a path as text, a path object and an open file; parse_single with a path as text or object, with and "
          "without a parser, by name and by function, and with an open file; names in the working directory or below it, with dots, and with "
          "other extensions; twelve names and extensions that are no parser; sets of up to three files of two kinds given as text "
          "or path objects, dumped together")
OUTSIDE = "files that change while they are read; upper-case extensions"
ASSUMPTIONS = ["the file system is a stand-in that holds the files named"]

ALL = {**PARSERS, **BIN_PARSERS}
FUNCTIONS = {"md": "parse_md_geom_file", "geom": "parse_md_geom_file"}


def content(S, kind):
    left = 1 if S.thorough else 0
    if kind == "castep":
        c = C(S, left)
        text = ""
        for n in ("build_info", "options", "cell", "positions", "energies", "forces", "bonds"):
            text = text + SECTIONS[n](c)[0] + "\n"
        return text
    fn, kw = sources(kind)[0]
    t = capture(S, fn, left, **kw)
    return t if kind in BIN_PARSERS or isinstance(t, str) else "".join(t)


def routes(kind):
    def run(S):
        text = content(S, kind)
        name = S.choice(f"run.{kind}", f"sub/a.b.{kind}", "odd.txt", "run.castep", "noextension")
        own = name.endswith("." + kind)
        S.fs({name: text})
        fn = ALL[kind]
        handle = lambda: (S.binfile if kind in BIN_PARSERS else S.file)(text, name)  # noqa: E731
        h = handle()
        want = fn(h)
        S.check(not h.closed, "the handle stays open")
        S.eq(fn(name), want, f"{kind}: by path")
        S.eq(fn(S.path(name)), want, f"{kind}: by path object")
        S.eq(parse_single(name, kind), want, f"{kind}: parse_single, path and parser's name")
        S.eq(parse_single(S.path(name), fn), want, f"{kind}: parse_single, path object and parser")
        S.eq(parse_single(handle(), kind), want, f"{kind}: parse_single, open file and parser's name")
        S.eq(parse_single(handle(), fn), want, f"{kind}: parse_single, open file and parser")
        if own:
            S.eq(parse_single(name), want, f"{kind}: parse_single, path")
            S.eq(parse_single(S.path(name)), want, f"{kind}: parse_single, path object")
    return run


def functions(S):
    """Each kind's parser is the one of that name."""
    kind = S.choice(*ALL)
    S.check(sorted(ALL) == sorted([*SOURCES, "castep"]), "kinds of file")
    name = FUNCTIONS.get(kind, f"parse_{kind}_file")
    if kind in PARSERS:
        S.check(getattr(castep_outputs, name) is ALL[kind], f"{name} is exported")


HUG = "# Compression Temperature(K) Pressure(GPa) Energy(eV)\n  0.1000000000E+001  0.2990000000E+003  -0.15E+001  0.{}5E+002\n"


def unknown(S):
    """No parser for the extension, for a handle without a parser; no such file."""
    S.fs({"run.hug": HUG.format("2"), "a/run.hugo": "", "run": "", "hug": "", "run.": "", "a/run.hug/x": "", "run.hug.bak": "",
          **{n: HUG.format("3") for n in ("run.hug_bin", "run.castep_bin", "run.HUG", "run.xhug", "run.hug2")}})
    name = S.choice("a/run.hugo", "run", "hug", "run.hug.bak", "run.", "run.hug_bin", "run.castep_bin", "run.HUG", "run.xhug", "run.hug2")
    S.raises(ValueError, lambda: parse_single(name), "unknown extension")
    S.raises(ValueError, lambda: parse_single(S.path(name)), "unknown extension")
    bad = S.choice("hugo", "HUG", ".hug", "", "hu", "md_geom", "cell_param", "cst_es", "parse_hug_file")
    S.raises(ValueError, lambda: parse_single(name, bad), "unknown parser")
    S.raises(ValueError, lambda: parse_single("run.hug", bad), "unknown parser for a known extension")
    S.raises(ValueError, lambda: parse_single(S.file(HUG.format("2"))), "open file without a parser")
    S.raises(FileNotFoundError, lambda: parse_single("none.hug"), "no such file")
    S.raises(FileNotFoundError, lambda: castep_outputs.parse_hug_file(S.path("b/run.hug")), "no such file")


ERR = "Error in {}\nCurrent trace stack:\n one\n"


def together(S):
    """Each file's result under its own name."""
    S.fs({"a.hug": HUG.format("1"), "d/a.hug": HUG.format("2"), "a.txt": HUG.format("3"), "a.err": ERR.format("a"), "d/b.err": ERR.format("b")})
    hugs = S.choice((), ("a.hug",), ("d/a.hug", "a.hug"), ("a.hug", "a.txt"), ("a.txt",), ("d/a.hug", "a.txt", "a.hug"))
    errs = S.choice((), ("a.err",), ("d/b.err", "a.err"))
    as_path = S.flag()
    files = {"hug": [S.path(n) if as_path else n for n in hugs], "err": [S.path(n) if as_path else n for n in errs]}
    if S.flag():
        files = dict(reversed(files.items()))
    to = S.choice("handle", "path", "append")
    if to == "handle":
        out = io.StringIO()
        parse_all(out, **files)
        text = out.getvalue()
    else:
        target = S.path("d/out.json") if as_path else "d/out.json"
        if to == "append":
            parse_all(target, hug=["a.hug"])
            before = S.written("d/out.json")
        parse_all(target, "json", **files)
        text = S.written("d/out.json")
        if to == "append":
            S.check(text[:len(before)] == before, "what was there is kept")
            text = text[len(before):]
    want = {n: {"compression": [1.0], "temperature": [299.0], "pressure": [-1.5], "energy": [{"a.hug": 15.0, "d/a.hug": 25.0, "a.txt": 35.0}[n]]} for n in hugs}
    want |= {n: {"message": "Error in " + n[-5], "stack": ["one"]} for n in errs}
    if len(want) == 1:
        want = next(iter(want.values()))
    S.check(json.loads(text) == want, f"results by file: {text}")


def cases(tier):
    return [*[("routes_" + k, routes(k)) for k in ALL], ("functions", functions), ("unknown", unknown), ("together", together)]
