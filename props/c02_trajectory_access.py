"""C02: random access to a trajectory equals parsing it from the start."""
from props.common import EXP3
from props.trajectory import ATOMS, HEADERS, frame

from castep_outputs.parsers.md_geom_file_parser import parse_md_file
from castep_outputs.tools.md_geom_parser import MDGeomParser

BOUNDS = ("1..4 frames (thorough 6), twelve (thorough 40) with a few accesses, every sequence of 3 (2 on 4 frames; thorough 4) accesses among getting any index (negative and out of range "
          "included), reading on, slicing and iterating, all slices with start, stop and step in range, headers present, "
          "absent or with comment, final blank line present, absent or without newline; all digits and signs symbolic")
OUTSIDE = "frames of different sizes in one file (the reader warns about those); files changing while open"
ASSUMPTIONS = []

SEPS = ("\n", "  \n")


def build(S, n, header="std", end="blank", atoms=1, tags=("E",), props="RF", exp=EXP3):
    sep = "  \n"
    text, want = [HEADERS[header]], []
    for i in range(n):
        ls, w = frame(S, tags, ATOMS[atoms], props, exp=exp)
        text += ls
        text.append(sep)
        want.append(w)
    if end == "none":
        text.pop()
    elif end == "nonl":
        text.pop()
        text[-1] = text[-1][:-1]
    elif end == "bare":
        text[-1] = sep[:-1]
    S.fs({"run.md": text})
    return want


def lean(S, n):
    return build(S, n, tags=(), props="R", exp=None)


def h_history(S, n):
    want = lean(S, n)
    p = MDGeomParser("run.md")
    S.eq(len(p), n, "number of frames")
    S.eq(p.next_frame, 0, "starts at the first frame")
    at = 0
    for k in range(4 if S.thorough else 3 if n < 4 else 2):
        op = S.choice("get", "next", "neg", "bad")
        if op == "get":
            i = S.count(0, n - 1)
            S.eq(p[i], want[i], f"frame {i} at access {k}")
            at = i + 1
        elif op == "neg":
            i = S.count(1, n)
            S.eq(p.get_frame(-i), want[n - i], f"frame {-i} at access {k}")
            at = n - i + 1
        elif op == "next":
            if at < n:
                S.eq(p.read_next(), want[at], f"next frame at access {k}")
                at += 1
            else:
                S.raises(StopIteration, lambda: p.read_next(), "no next frame")
        else:
            i = (n, -n - 1, n + 7)[k % 3]
            S.raises(IndexError, lambda: p[i], "index out of range")
        S.eq(p.next_frame, at if at < n else None, "next frame number")


def h_slices(S, n):
    want = lean(S, n)
    p = MDGeomParser("run.md")
    if S.flag():
        S.eq(p[n // 2], want[n // 2], "an earlier access")
    kind = S.choice("slice", "list", "tuple", "range", "gen")
    if kind == "slice":
        lo, hi, st = S.choice(None, 0, 1, -1, n + 2), S.choice(None, 1, -1, n, -n - 3), S.choice(None, 2, -1)
        S.eq(p[lo:hi:st], want[lo:hi:st], "slice")
        return
    i, j = S.count(-n, n - 1), S.count(0, n - 1)
    idx = [i, j, i]
    got = p[idx if kind == "list" else tuple(idx) if kind == "tuple" else range(j + 1) if kind == "range" else (x for x in idx)]
    S.eq(got, [want[k] for k in (range(j + 1) if kind == "range" else idx)], "frames asked for")


def h_iterate(S, n):
    want = lean(S, n)
    p = MDGeomParser("run.md")
    how = S.choice("plain", "twice", "jump", "touch")
    if how == "plain":
        S.eq(list(p), want, "iteration")
    elif how == "twice":
        list(p)
        S.eq([f for f in p], want, "iteration again")
    elif how == "touch":
        k = S.count(0, n - 1)
        out = []
        for f in p:
            out.append(f)
            S.eq(p[k], want[k], "access during iteration")
        S.eq(out, want, "iteration with accesses in between")
    else:
        it = iter(p)
        S.eq(next(it), want[0], "first frame")
        to = S.count(0, n - 1)
        S.eq(it.send(to), want[to], "jumped to")
        S.eq(list(it), want[to + 1:], "the rest")


def h_layout(S, n):
    want = build(S, n, S.choice(*HEADERS), S.choice("blank", "none", "nonl", "bare"), S.choice(1, "label"))
    p = MDGeomParser(S.path("run.md") if S.flag() else "run.md")
    S.eq(len(p), n, "number of frames")
    S.eq(p[-1], want[-1], "last frame")
    S.eq(list(p), want, "all frames")


def h_same(S):
    """Both routes agree on a file with every quantity."""
    n = S.choice(1, 2, 3)
    want = build(S, n, atoms=2, tags=("E", "T", "P", "h", "hv", "S"), props="RVF")
    seq = parse_md_file("run.md")
    S.eq(seq, want, "sequential")
    S.eq(MDGeomParser("run.md")[:], seq, "random access")


def h_summary(S, n):
    """What the reader says of itself agrees with what it does."""
    want = lean(S, n)
    p = MDGeomParser("run.md")
    k = S.choice(None, *range(n))
    if k is not None:
        S.eq(p[k], want[k], "a frame")
    at = 0 if k is None else k + 1
    S.eq(str(p), f"File: run.md\nFrames: {n}\nNext frame: {at if at < n else None}", "summary")
    S.eq(p.next_frame, at if at < n else None, "next frame")


def h_many(S):
    """More than ten frames."""
    n = 40 if S.thorough else 12
    want = lean(S, n)
    p = MDGeomParser("run.md")
    S.eq(len(p), n, "number of frames")
    i = S.choice(9, 10, 11, -1, -n)
    S.eq(p[i], want[i], "a late frame")
    S.eq(p[9:], want[9:], "the last frames")
    S.eq(list(p), want, "all frames")


def h_gone(S):
    S.fs({})
    S.raises(FileNotFoundError, lambda: MDGeomParser("run.md"), "missing file")


def cases(tier):
    ns = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 6)
    return [*[(f"{nm}{n}", f, dict(n=n)) for nm, f in (("history", h_history), ("slices", h_slices), ("iterate", h_iterate), ("summary", h_summary)) for n in ns],
            *[(f"layout{n}", h_layout, dict(n=n)) for n in (1, 2, 3)], ("same", h_same), ("gone", h_gone), ("many", h_many)]
