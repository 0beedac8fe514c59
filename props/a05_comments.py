"""A05: comment stripping removes comments and blank lines and nothing else."""
from castep_outputs.utilities.filewrapper import Block, FileWrapper
from castep_outputs.utilities.utility import strip_comments

BOUNDS = ("1..3 lines (thorough 4) of up to 8 characters (thorough 10) drawn from all printable characters, tab and form "
          "feed; single-character, multi-character, punctuation and regex-special markers in sets of 1..3; both modes; "
          "from files, wrapped files, blocks and lists; with and without a final newline")
OUTSIDE = "empty markers, markers starting with white space or containing a newline"
ASSUMPTIONS = []

WHITE = " \t\x0c"
ALL = "".join(chr(i) for i in range(32, 127)) + "\t\x0c"
MARKERS = ("#!", "#", {"//"}, {"//", "#"}, {"."}, {"*"}, {"$"}, {"^"}, {"(*"}, {"[a]"}, {"\\"}, {"a|b"}, {"a+"}, {"!", "#", ";"},
           {"REM"}, {"--", "-*-"}, ["c", "?"], "*.")


def source(S, kind, ls):
    if kind == "block":
        return Block.from_iterable(ls)
    if kind == "list":
        return list(ls)
    f = S.file("".join(ls) if ls else "")
    return FileWrapper(f) if kind == "wrapped" else f


def expected(text, marks, inline):
    """The line's own text after stripping, or None when it goes."""
    body = text
    n = 0
    while n < len(body) and body[n] in WHITE:
        n += 1
    for m in marks:
        if body[n:n + len(m)] == m:
            return None
    cut = len(body)
    if inline:
        for k in range(n, len(body)):
            hit = False
            for m in marks:
                if body[k:k + len(m)] == m:
                    hit = True
                    break
            if hit:
                cut = k
                break
    while cut > 0 and body[cut - 1] in WHITE:
        cut -= 1
    return body[:cut] if cut else None


def run(S, lines, marks, inline, kind, final=True):
    ls = [t + "\n" for t in lines]
    if not final:
        ls[-1] = lines[-1]
    src = source(S, kind, ls)
    kw = {} if marks == "#!" and S.choice(0, 1) else {"comment_char": marks}
    out = strip_comments(src, remove_inline=inline, **kw)
    got = list(out)
    want = [e for e in (expected(t, list(marks), inline) for t in lines) if e is not None]
    S.eq(got, want, "lines kept")


def h_one(S, marks, inline):
    n = S.choice(0, 1, 3, 8 if not S.thorough else 10)
    t = S.chars(n, ALL)
    run(S, [t], marks, inline, "list")


def h_many(S, marks, inline):
    k = S.choice(2, 3) if not S.thorough else S.choice(2, 3, 4)
    lines = []
    for i in range(k):
        shape = S.choice("text", "comment", "blank", "trailing")
        m = list(marks)[i % len(marks)]
        if shape == "text":
            lines.append("  " + S.chars(1, "xyz01") + " = " + S.chars(2, "xyz01") + "  ")
        elif shape == "comment":
            lines.append(S.chars(1, WHITE) + m + S.chars(2, ALL))
        elif shape == "blank":
            lines.append(S.chars(1, WHITE))
        else:
            lines.append(S.chars(1, "xyz01") + S.chars(1, WHITE) + m + S.chars(1, ALL))
    run(S, lines, marks, inline, S.choice("file", "wrapped", "block") if k == 2 else "file", S.flag())


def cases(tier):
    out = []
    for i, m in enumerate(MARKERS):
        for inline in (False, True):
            tag = f"{i}{'i' if inline else ''}"
            out.append((f"one{tag}", h_one, dict(marks=m, inline=inline)))
            if i in (0, 2, 4, 8, 13):
                out.append((f"many{tag}", h_many, dict(marks=m, inline=inline)))
    return out
