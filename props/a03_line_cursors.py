"""A03: line cursors neither lose nor repeat lines, whatever the history."""
from castep_outputs.utilities.filewrapper import Block, FileWrapper

BOUNDS = ("files of up to 4 (thorough 6) lines of any symbolic length from 1 byte to 1 TB under every interleaving of "
          "7 (thorough 10) reads/step-backs; files of 0..4 lines (thorough 0..6) of symbolic printable characters, lengths 0..3 mixed, last newline "
          "present or absent; every interleaving of read/step-back up to 9 operations (thorough 11) on files, blocks and "
          "block-backed files; blocks of up to 5 lines with symbolic end lines, 1..3 end matches, bounds 0, 1, 2, 4 and 7; up to 40 blank lines ahead of a block's text")
OUTSIDE = "operations after the end of a block has been hit; bytes outside printable ASCII; files changed underneath"
ASSUMPTIONS = ["text files behave as the io module documents: tell() after readline() is the start of the next line"]


def lines(S, n, last_nl=True, alphabet="print"):
    out = []
    for i in range(n):
        t = S.chars((2, 0, 3, 1, 2, 1)[i % 6], alphabet)
        out.append(t + ("\n" if last_nl or i < n - 1 else "x"))
    return out


def h_file_history(S, n):
    """Any sequence of reads and step-backs: the model is a list and an index."""
    nl = S.flag()
    ls = lines(S, n, nl)
    f = FileWrapper(S.file("".join(ls) if ls else ""))
    i, fresh = 0, False                      # lines consumed; whether the last line can be handed back
    starts = [0]
    for t in ls:
        starts.append(starts[-1] + len(t))
    for step in range(11 if S.thorough else 9):
        op = S.choice("next", "rewind")
        if op == "next":
            if i < n:
                S.eq(next(f), ls[i], f"line {i} read at step {step}")
                i += 1
                fresh = True
            else:
                S.raises(StopIteration, lambda: next(f), "end of file")
                fresh = False
        else:
            f.rewind()
            if fresh:
                i -= 1
                fresh = False
        S.eq(f.lineno, i, f"line number at step {step}")
        S.eq(f.tell(), starts[i], f"position at step {step}")


class LenFile:
    """A text file whose lines have symbolic byte lengths: positions are sums the solver reasons about."""

    name = "lenfile"

    def __init__(self, sizes):
        self.pos = [0]
        for k in sizes:
            self.pos.append(self.pos[-1] + k)
        self.i = 0

    def tell(self):
        return self.pos[self.i]

    def readline(self):
        if self.i + 1 == len(self.pos):
            return ""
        self.i += 1
        return f"line {self.i}\n"

    def seek(self, p, whence=0):
        for j in range(len(self.pos)):
            if self.pos[j] == p:
                self.i = j
                return p
        raise AssertionError("seek to the middle of a line")

    def close(self):
        pass


def h_any_lengths(S, n):
    """The same histories over lines of any length from one byte to a terabyte."""
    src = LenFile([S.int(1, 1 << 40) for _ in range(n)])
    f = FileWrapper(src)
    i, fresh = 0, False
    for step in range(10 if S.thorough else 7):
        if S.choice("next", "rewind") == "next":
            if i == n:
                S.raises(StopIteration, lambda: next(f), "end of file")
                fresh = False
            else:
                S.eq(next(f), f"line {i + 1}\n", f"line at step {step}")
                i += 1
                fresh = True
        else:
            f.rewind()
            if fresh:
                i -= 1
                fresh = False
        S.eq(f.lineno, i, f"line number at step {step}")
        S.check(f.tell() == src.pos[i], f"position at step {step}")


def h_file_loop(S, n):
    """A for-loop with step-backs sees every line, again after each step-back."""
    ls = lines(S, n)
    f = FileWrapper(S.file("".join(ls) if ls else ""))
    at = S.count(0, n - 1) if n else 0
    seen, back = [], False
    for line in f:
        seen.append(line)
        if not back and len(seen) == at + 1:
            f.rewind()
            back = True
    S.eq(seen, ls[:at + 1] + ls[at:] if n else [], "lines seen by a loop")
    S.eq(f.lineno, n, "lines counted")


def h_offset(S):
    """Wrapping a handle already positioned inside the file."""
    ls = lines(S, 3)
    h = S.file("".join(ls))
    h.readline()
    f = FileWrapper(h)
    if S.flag():
        f.rewind()
        S.eq(f.lineno, 0, "nothing consumed")
    S.eq(list(f), ls[1:], "remaining lines")
    S.eq(f.lineno, 2, "lines counted")


def h_block_history(S, n):
    """Blocks allow stepping back any number of lines, to the start."""
    ls = lines(S, n)
    b = Block.from_iterable(ls)
    i = 0
    for step in range(11 if S.thorough else 9):
        op = S.choice("next", "rewind")
        if op == "next":
            if i == n:
                S.raises(StopIteration, lambda: next(b), "end of block")
                break
            S.eq(next(b), ls[i], f"block line {i} at step {step}")
            i += 1
        elif i == 0:
            S.raises(ValueError, b.rewind, "stepping back before the first line")
        else:
            b.rewind()
            i -= 1
    S.eq(b.aslist(), ls, "block unchanged by reading")


def end_line(S, kind):
    if kind == "end":
        return S.chars(1, " x") + "END\n"
    if kind == "blank":
        return "\n"
    return S.chars(2, "abcXY 09") + "\n"


def h_from_re(S):
    """A block runs to its n-th end line and leaves the source just behind it."""
    pre = S.choice(0, 1)
    n_end = S.choice(1, 2, 3)
    body = [S.count(0, 2) for _ in range(n_end)]
    post = S.count(0, 2)
    src = ["pre" + S.chars(1, "digit") + "\n" for _ in range(pre)]
    blk = ["BEGIN " + S.chars(2, "alpha") + "\n"]
    for k in body:
        blk += [end_line(S, "mid") for _ in range(k)] + [end_line(S, "end")]
    tail = [end_line(S, "mid") for _ in range(post)]
    all_ = src + blk + tail
    which = S.choice("file", "block", "raw")
    f = {"file": lambda: FileWrapper(S.file("".join(all_))), "raw": lambda: iter(S.file("".join(all_))),
         "block": lambda: Block.from_iterable(all_)}[which]()
    got = None
    for line in f:
        got = Block.from_re(line, f, "^BEGIN", "END$", n_end=n_end)
        if got:
            break
        S.eq(got.aslist(), [], "no block where none starts")
    S.eq(got.aslist(), blk, "block lines")
    S.eq(len(got), len(blk), "block length")
    if which == "file":
        S.eq(f.lineno, pre + len(blk), "source line number")
        no = [0]
        for line in got:
            no.append(got.lineno)
        S.eq(no[1:], list(range(pre + 1, pre + len(blk) + 1)), "line numbers of block lines")
    S.eq(list(f), tail, "source continues behind the block")


def h_blank_end(S):
    """Blocks ended by blank lines."""
    n = S.count(1, 3)
    body = [S.chars(1, "alpha") + S.chars(2, " az") + "\n" for _ in range(n)]
    tail = [S.chars(2, "alpha") + "\n" for _ in range(S.count(0, 2))]
    f = FileWrapper(S.file("".join(body) + "\n" + "".join(tail)))
    b = Block.from_re(next(f), f, "", "^$")
    S.eq(b.aslist(), body + ["\n"], "block with its blank line")
    S.eq(list(f), tail, "source continues")


def h_get_lines(S):
    """Exactly the lines asked for, source positioned on the next one."""
    n = S.count(0, 4)
    k = S.count(0, n)
    nl = S.flag()
    ls = lines(S, n, nl)
    skip = S.choice(0, 1) if k < n else 0
    which = S.choice("file", "block", "raw")
    f = {"file": lambda: FileWrapper(S.file("".join(ls) if ls else "")), "block": lambda: Block.from_iterable(ls),
         "raw": lambda: iter(S.file("".join(ls) if ls else ""))}[which]()
    for _ in range(skip):
        next(f)
    b = Block.get_lines(f, k, eof_possible=S.flag())
    S.eq(b.aslist(), ls[skip:skip + k], "lines taken")
    S.eq(list(f), ls[skip + k:], "lines left")


def h_views(S):
    """Bounds, indexing, length, truth and text of a block."""
    n = S.count(0, 5)
    ls = [S.chars((1, 0, 2, 1, 3)[i], " ab") + "\n" for i in range(n)]
    b = Block.from_iterable(ls)
    S.eq(bool(b), any(x.strip() != "" for x in ls), "a block is true when some line is not blank")
    fore, back = S.choice(0, 1, 2, 4), S.choice(0, 1, 2, 4, 7)
    b.remove_bounds(fore, back)
    e = ls[fore:n - back] if n - back > fore else []
    S.eq(len(b), len(e), "length without bounds")
    S.eq(b.aslist(), e, "lines without bounds")
    S.eq(str(b), "\n".join(e) if e else "", "text")
    S.eq([b[i] for i in range(len(e))], e, "indexing")
    S.eq([b[i - len(e)] for i in range(len(e))], e, "negative indexing")
    S.eq(b[1:], e[1:], "slicing")
    S.eq(b[:-1], e[:-1], "slicing from the end")
    S.eq(list(b), e, "iteration")


def h_truth(S):
    """However many blank lines come first."""
    n, k = S.choice(1, 12, 40), S.choice(0, 1)
    ls = [S.chars(k, " \t") + "\n" for _ in range(n)] + [S.chars(1, " a") + "\n"]
    f = FileWrapper(S.file("".join(ls) + "next\n"))
    b = Block.get_lines(f, n + 1)
    S.eq(bool(b), ls[-1].strip() != "", "a block is true when some line is not blank")
    S.eq(next(f), "next\n", "line after the block")


def h_default_bounds(S):
    n = S.count(3, 5)
    ls = lines(S, n)
    b = Block.from_iterable(ls)
    b.remove_bounds()
    S.eq(list(b), ls[1:-2], "default bounds")


def h_stringio(S):
    ls = [S.chars(2, "abc ") for _ in range(S.count(0, 3))]
    b = Block.from_iterable(ls)
    S.eq(b.asstringio().read(), "\n".join(ls) if ls else "", "simulated file")
    S.eq(b.aslist(), ls, "list")


def h_nested(S):
    """A block cut out of a block leaves the outer one on the following line."""
    inner = [S.chars(2, "xyz") + "\n" for _ in range(S.count(0, 2))]
    before = [S.chars(1, "abc") + "\n" for _ in range(S.count(0, 2))]
    after = [S.chars(1, "abc") + "\n" for _ in range(S.count(0, 2))]
    src = ["BEGIN outer\n", *before, "{\n", *inner, "}\n", *after, "END outer\n", "tail\n"]
    f = FileWrapper(S.file("".join(src)))
    o = Block.from_re(next(f), f, "BEGIN", "END")
    o.remove_bounds(1, 1)
    seen, got = [], None
    for line in o:
        if b := Block.from_re(line, o, r"\{", r"\}"):
            got = b.aslist()
        else:
            seen.append(line)
    S.eq(got, ["{\n", *inner, "}\n"], "inner block")
    S.eq(seen, before + after, "outer lines around it")
    S.eq(list(f), ["tail\n"], "file continues")


def cases(tier):
    out = [("offset", h_offset), ("from_re", h_from_re, {}, dict(weight=3)), ("blank_end", h_blank_end),
           ("get_lines", h_get_lines), ("views", h_views), ("truth", h_truth), ("default_bounds", h_default_bounds),
           ("stringio", h_stringio), ("nested", h_nested)]
    for n in range(5 if tier == "quick" else 7):
        out += [(f"any_lengths{n}", h_any_lengths, dict(n=n)), (f"file_history{n}", h_file_history, dict(n=n)), (f"file_loop{n}", h_file_loop, dict(n=n)),
                (f"block_history{n}", h_block_history, dict(n=n))]
    return out
