"""A07: keys and atom labels are derived faithfully from their text."""
from props.common import digits, nz, real

from castep_outputs.processing.processing import AtomLabel
from castep_outputs.utilities import castep_res as REs
from castep_outputs.utilities.utility import (
    atreg_to_index,
    filter_underscore,
    normalise_key,
    normalise_string,
)

BOUNDS = ("keys of up to 7 arbitrary printable/white-space characters (thorough 9) and of up to 4 words (thorough 5) joined by any "
          "separators; atom names of 1..3 letters, tags and labels of up to 3 symbolic characters, white space before the "
          "label 0..2, indices of 1..7 digits, in full data lines; underscore filtering over 3 symbolic 2-character names")
OUTSIDE = "non-ASCII text; labels containing ']' ; species of more than three letters"
ASSUMPTIONS = []

WHITE = " \t\n\x0b\x0c\r"
ALL = "".join(chr(i) for i in range(32, 127)) + "\t\n\x0c"
WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
PUNCT = "".join(chr(i) for i in range(33, 127) if chr(i) not in WORD)


def h_key_chars(S, n):
    t = S.chars(n, ALL)
    words, cur = [], ""
    for c in t:
        if c in WORD:
            cur = cur + c.lower()
        elif cur:
            words.append(cur)
            cur = ""
    if cur:
        words.append(cur)
    k = normalise_key(t)
    S.eq(k, "_".join(words), "normalised key")
    S.eq(normalise_key(k), k, "stable")


def h_key_words(S, n):
    seps = [S.choice("", " ", "p", " p")] if n else [""]
    seps += [S.choice("p", "pp", " ", "_ p") for _ in range(n - 1)] + ([S.choice("", "p", "pp")] if n else [])

    def sep(s):
        out = ""
        for c in s:
            out = out + (S.chars(1, PUNCT) if c == "p" else S.chars(1, WHITE) if c == " " else c)
        return out

    ws = [S.chars(2, WORD) for _ in range(n)]
    t = sep(seps[0])
    for w, s in zip(ws, seps[1:]):
        t = t + w + sep(s)
    k = normalise_key(t)
    S.eq(k, "_".join([w.lower() for w in ws]), "words joined")


def h_string(S, n):
    t = S.chars(n, ALL)
    words, cur = [], ""
    for c in t:
        if c in WHITE:
            if cur:
                words.append(cur)
            cur = ""
        else:
            cur = cur + c
    if cur:
        words.append(cur)
    k = normalise_string(t)
    S.eq(k, " ".join(words), "normalised string")
    S.eq(normalise_string(k), k, "stable")


def atom(S, nspec, tag, label, gap):
    spec = S.chars(1, "upper") + (S.chars(nspec - 1, "lower") if nspec > 1 else "")
    name = spec
    want = {"species": spec}
    if tag:
        want["tag"] = S.chars(tag, "word")
        name = name + ":" + want["tag"]
    if label is not None:
        lab = S.chars(label, WORD + "-_+*. ,'")
        S.assume(lab[0] != " ")
        S.assume(lab[len(lab) - 1] != " ")
        want["label"] = lab
        name = name + " " * gap + "[" + lab + "]"
    return name, want


def shape(S):
    return S.choice((1, 0, None, 0), (2, 0, None, 0), (3, 0, None, 0), (2, 1, None, 0), (1, 3, None, 0), (2, 0, 1, 0),
                    (2, 0, 3, 1), (1, 2, 2, 0), (3, 2, 3, 2))


def h_parts(S):
    name, want = atom(S, *shape(S))
    S.eq(REs.get_atom_parts(name), want, "atom parts")


def h_label(S):
    name, want = atom(S, *shape(S))
    a = AtomLabel.from_str(name)
    S.eq({k: v for k, v in a._asdict().items() if v}, want, "atom label")


def h_index(S, nd):
    """The atom of a data line: its name and number, and the vector after it."""
    name, _ = atom(S, *shape(S))
    idx = nz(S) + (digits(S, nd - 1) if nd > 1 else "")
    v = [real(S, 1, 2) for _ in range(3)]
    lead = S.choice("", "   ", " | ", "*  ")
    line = lead + name + " " * S.choice(1, 4) + idx + "  " + "   ".join(v) + S.choice("", "  |", "  *\n")
    m = REs.ATOMIC_DATA_3VEC.search(line)
    S.check(m is not None, "the atom line is recognised")
    S.eq(atreg_to_index(m), (name, int(idx)), "atom key")
    S.eq((m["x"], m["y"], m["z"]), tuple(v), "the vector")
    d = dict(m.groupdict())
    keep = dict(d)
    S.eq(atreg_to_index(d, clear=False), (name, int(idx)), "atom key")
    S.eq(d, keep, "kept when not cleared")
    S.eq(atreg_to_index(d), (name, int(idx)), "atom key")
    del keep["spec"], keep["index"]
    S.eq(d, keep, "only species and index removed")


def h_reference(S):
    """The species and number of any mapping."""
    spec, idx = S.chars(S.choice(1, 3), "print"), nz(S) + digits(S, 2)
    d = {"spec": spec, "index": idx, "x": S.int(0, 9)}
    keep = dict(d)
    S.eq(atreg_to_index(d, clear=False), (spec, int(idx)), "atom key")
    S.eq(d, keep, "kept when not cleared")
    S.eq(atreg_to_index(d), (spec, int(idx)), "atom key")
    S.eq(d, {"x": keep["x"]}, "only species and index removed")


def h_tagged(S, nd):
    name, _ = atom(S, *shape(S))
    idx = nz(S) + (digits(S, nd - 1) if nd > 1 else "")
    v = [real(S, 1, 2, exp=("E", "sym", 2)) for _ in range(3)]
    tag = S.chars(1, "upper")
    line = " " + name + "  " + idx + "   " + "   ".join(v) + "  <-- " + tag + "\n"
    m = REs.ATOMIC_DATA_TAG.match(line)
    S.check(m is not None, "the tagged line is recognised")
    S.eq(atreg_to_index(m), (name, int(idx)), "atom key")
    S.eq((m["x"], m["y"], m["z"], m["tag"]), (*v, tag), "vector and tag")


def h_under(S):
    names = [S.chars(2, "ab_") for _ in range(3)]
    S.assume(names[0] != names[1])
    S.assume(names[0] != names[2])
    S.assume(names[1] != names[2])
    d = {k: i for i, k in enumerate(names)}
    want = {}
    for i, k in enumerate(names):
        if k[0] != "_":
            want[k] = i
    out = filter_underscore(d)
    S.eq(out, want, "public entries")
    S.eq(len(d), 3, "input kept")


def cases(tier):
    t = tier == "thorough"
    return [*[(f"key{n}", h_key_chars, dict(n=n)) for n in range(8 if not t else 10)],
            *[(f"words{n}", h_key_words, dict(n=n)) for n in range(5 if not t else 6)],
            *[(f"string{n}", h_string, dict(n=n)) for n in range(8 if not t else 10)],
            ("reference", h_reference), ("parts", h_parts), ("label", h_label),
            *[(f"index{n}", h_index, dict(nd=n)) for n in (1, 2, 4, 7)],
            *[(f"tagged{n}", h_tagged, dict(nd=n)) for n in (1, 3)], ("underscore", h_under)]
