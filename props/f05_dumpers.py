"""F05: every output format is handed the whole result."""
import io
import sys

from castep_outputs.bin_parsers import PARSERS as BIN_PARSERS
from castep_outputs.cli.castep_outputs_main import parse_all
from castep_outputs.parsers import PARSERS
from castep_outputs.utilities.dumpers import SUPPORTED_FORMATS, get_dumpers

from props.castep_file import SECTIONS
from props.f02_dispatch import content
from props.f03_json import same

BOUNDS = ("a file of each of the 23 kinds with every digit and sign symbolic (thorough: one departure from the plain form), and sets of two files "
          "of different kinds, in each of the six formats, written to the screen, to an open file, to a new file and to the end of one that "
          "holds something; the same for nested data of any shape up to two levels (thorough three), of ten (sixteen) levels and of 60 entries given to each dumper itself; six names that are no format")
OUTSIDE = "how the serialisers (PyYAML, ruamel.yaml, json, pprint) turn data into text; several results appended to one file being read as one"
ASSUMPTIONS = ["the serialisers are stand-ins that keep what they are given; every replay on the real code writes with the real ones and reads "
               "the text back"]

ALL = {**PARSERS, **BIN_PARSERS}
FORMATS = ("json", "yaml", "ruamel", "pyyaml", "pprint", "print")


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return [plain(v) for v in x] if isinstance(x, (list, tuple)) else x


def agree(S, fmt, raw, got, what):
    if fmt == "json":
        same(S, raw, got, what)
    else:
        S.eq(plain(got), plain(raw), what)


class Handle(io.TextIOBase):
    """An open text file that is no StringIO."""

    def __init__(self):
        self.text = io.StringIO()

    def write(self, s):
        return self.text.write(s)

    def getvalue(self):
        return self.text.getvalue()


def write(S, fmt, files):
    """The text parse_all writes, by the route chosen."""
    to = S.choice("screen", "handle", "new", "append")
    before = ""
    if to == "screen":
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            parse_all(None, fmt, **files)
        finally:
            text, sys.stdout = sys.stdout.getvalue(), out
    elif to == "handle":
        h = S.choice(io.StringIO, Handle)()
        parse_all(h, fmt, **files)
        S.check(not h.closed, "the handle stays open")
        text = h.getvalue()
    else:
        name = "old.txt" if to == "append" else "new.txt"
        before = "kept\n" if to == "append" else ""
        parse_all(S.choice(name, S.path(name)), fmt, **files)
        text = S.written(name)
    S.check(text[:len(before)] == before, "what was there is kept")
    return text[len(before):]


def one(kind):
    def run(S):
        text = content(S, kind)
        name = f"d/run.{kind}"
        S.fs({name: text, "old.txt": "kept\n"})
        S.serialisers()
        raw = ALL[kind](name)
        fmt = S.choice(*FORMATS)
        agree(S, fmt, raw, S.read_back(fmt, write(S, fmt, {kind: [S.path(name)]})), f"{kind} as {fmt}")
    return run


HUG = "# Compression Temperature(K) Pressure(GPa) Energy(eV)\n  0.1000000000E+001  0.2990000000E+003  -0.15E+001  0.{}5E+002\n"
ERR = "Error in {}\nCurrent trace stack:\n one\n"


def several(S):
    S.fs({"a.hug": HUG.format(1), "d/a.hug": HUG.format(2), "a.err": ERR.format("a"), "no.hug": HUG[:HUG.index("\n") + 1], "old.txt": "kept\n"})
    S.serialisers()
    files = S.choice({"hug": ["a.hug", "d/a.hug"]}, {"hug": ["a.hug"], "err": ["a.err"]}, {"err": ["a.err"], "hug": ["d/a.hug", "a.hug"]}, {},
                     {"hug": ["a.hug", "no.hug"]}, {"hug": ["no.hug", "a.hug"]}, {"hug": ["no.hug"]}, {"md": [], "hug": ["a.hug"], "err": []})
    raw = {n: ALL[k](n) for k, ns in files.items() for n in ns}
    if len(raw) == 1:
        raw = next(iter(raw.values()))
    fmt = S.choice(*FORMATS)
    agree(S, fmt, raw, S.read_back(fmt, write(S, fmt, files)), fmt)


def data(S, depth, top=False):
    k = S.choice(*([] if top else ["leaf", "text", "none"]), *(["dict", "list", "empty"] if depth else []))
    if k == "leaf":
        return S.int(-99, 99)
    if k == "text":
        return S.chars(2, "abcxyz :-'\"#")
    if k == "none":
        return None
    if k == "empty":
        return S.choice({}, [])
    return {"a": data(S, depth - 1), "b c": S.int(0, 9)} if k == "dict" else [data(S, depth - 1), 0.5]


def dumper(S):
    """Each dumper itself."""
    S.serialisers()
    fmt = S.choice(*FORMATS)
    raw = data(S, 3 if S.thorough else 2, True)
    h = io.StringIO()
    get_dumpers(fmt)(raw, h)
    S.check(not h.closed, "the handle stays open")
    S.eq(S.read_back(fmt, h.getvalue()), raw, fmt)


def deep(S):
    """However deeply the data are nested."""
    S.serialisers()
    fmt = S.choice(*FORMATS)
    raw = S.int(-99, 99)
    n = S.count(1, 16 if S.thorough else 10)
    first = S.flag()
    for k in range(n):
        raw = {"k": raw, "z": k} if (k % 2 == 0) == first else [raw]
    h = io.StringIO()
    get_dumpers(fmt)(raw, h)
    S.eq(S.read_back(fmt, h.getvalue()), raw, f"{fmt}, {n} levels")


def wide(S):
    """However many entries there are, in the order they have."""
    S.serialisers()
    fmt = S.choice(*FORMATS)
    n = S.choice(12, 60)
    raw = {f"k{(7 * k) % n}": [S.int(-99, 99) if k < 3 else k] for k in range(n)}
    raw["list"] = list(range(n))
    raw["text"] = "x" * 10 * n
    h = io.StringIO()
    get_dumpers(fmt)(raw, h)
    S.eq(S.read_back(fmt, h.getvalue()), raw, f"{fmt}, {n} entries")


def unknown(S):
    S.fs({"a.hug": HUG.format(1)})
    bad = S.choice("toml", "", "JSON", "yml", "json ", "xml")
    S.raises(ValueError, lambda: get_dumpers(bad), "unknown format")
    S.raises(ValueError, lambda: parse_all(S.path("new.txt"), bad, hug=["a.hug"]), "unknown format")
    S.check(S.written("new.txt") is None, "nothing written")
    S.check(set(FORMATS) - {"yaml"} == set(SUPPORTED_FORMATS), "formats")


def cases(tier):
    return [*[("one_" + k, one(k)) for k in ALL], ("several", several), ("dumper", dumper), ("deep", deep), ("wide", wide), ("unknown", unknown)]
