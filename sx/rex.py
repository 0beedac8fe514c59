"""Regular expressions over symbolic strings.

If, for a pattern, every symbolic character's domain falls in one equivalence class
of the pattern's character tests, the C engine runs on a representative string and
the spans are mapped back (sound: without backreferences a match depends only on the
classes).  Otherwise a backtracking matcher over the sre parse tree runs, forking on
the character tests it actually performs.
"""
from __future__ import annotations

import re
from re import _constants as C
from re import _parser as P

from . import core
from .core import Unsupported
from .values import (ALL, ALNUM, Ch, DIGIT, SymStr, WORD, WS, ch_eq, ch_in, codes, elems, is_str,
                     mask_of, mk)

CATS = {
    C.CATEGORY_DIGIT: DIGIT, C.CATEGORY_NOT_DIGIT: ALL & ~DIGIT,
    C.CATEGORY_SPACE: WS, C.CATEGORY_NOT_SPACE: ALL & ~WS,
    C.CATEGORY_WORD: WORD, C.CATEGORY_NOT_WORD: ALL & ~WORD,
}
ASCII_WS = mask_of(" \t\n\r\f\v")
NL = mask_of("\n")


def _case(mask):
    m = mask
    for c in codes(mask):
        for x in (chr(c).lower(), chr(c).upper()):
            if len(x) == 1 and ord(x) < 128:
                m |= 1 << ord(x)
    return m


class Info:
    def __init__(self, pat):
        self.pat = pat
        self.flags = pat.flags
        try:
            self.tree = P.parse(pat.pattern, pat.flags & ~re.DEBUG)
        except RecursionError:
            raise
        self.masks = set()
        self.backref = False
        self._collect(self.tree, self.flags)
        # class signature per codepoint
        sig = {}
        ms = sorted(self.masks)
        self.cls = [0] * 128
        for i in range(128):
            key = tuple(m >> i & 1 for m in ms)
            self.cls[i] = sig.setdefault(key, len(sig))
        self.nclass = len(sig)
        self.rep = {}
        self.prog = None

    def item_mask(self, items, flags):
        neg = False
        m = 0
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                if av < 128:
                    m |= 1 << av
            elif op is C.RANGE:
                lo, hi = av
                for c in range(lo, min(hi, 127) + 1):
                    m |= 1 << c
            elif op is C.CATEGORY:
                m |= self.cat(av, flags)
            else:
                raise Unsupported(f"regex set item {op}")
        if flags & re.I:
            m = _case(m)
        if neg:
            m = ALL & ~m
        return m

    def cat(self, av, flags):
        m = CATS[av]
        if flags & re.A:
            if av is C.CATEGORY_SPACE:
                m = ASCII_WS
            elif av is C.CATEGORY_NOT_SPACE:
                m = ALL & ~ASCII_WS
        return m

    def lit_mask(self, c, flags):
        m = 1 << c if c < 128 else 0
        return _case(m) if flags & re.I else m

    def _collect(self, tree, flags):
        for op, av in tree:
            if op is C.LITERAL or op is C.NOT_LITERAL:
                self.masks.add(self.lit_mask(av, flags))
            elif op is C.ANY:
                if not flags & re.S:
                    self.masks.add(NL)
            elif op is C.IN:
                self.masks.add(self.item_mask(av, flags))
            elif op is C.BRANCH:
                for t in av[1]:
                    self._collect(t, flags)
            elif op is C.SUBPATTERN:
                _, add, rem, t = av
                self._collect(t, (flags | add) & ~rem)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                self._collect(av[2], flags)
            elif op is C.ATOMIC_GROUP:
                self._collect(av, flags)
            elif op in (C.ASSERT, C.ASSERT_NOT):
                self._collect(av[1], flags)
            elif op is C.AT:
                if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                    self.masks.add(WORD)
                elif av in (C.AT_BEGINNING, C.AT_END, C.AT_BEGINNING_LINE, C.AT_END_LINE):
                    self.masks.add(NL)
            elif op is C.GROUPREF:
                self.backref = True
            elif op is C.GROUPREF_EXISTS:
                _, y, n = av
                self._collect(y, flags)
                if n:
                    self._collect(n, flags)
            elif op is C.FAILURE:
                pass
            else:
                raise Unsupported(f"regex op {op}")

    def rep_string(self, s):
        """Representative string, or None if some char spans several classes."""
        if self.backref:
            return None
        out = []
        rep = self.rep
        for e in s.el:
            if type(e) is str:
                out.append(e)
                continue
            m = e.var.dom if e.tab is None else e.dom()
            r = rep.get(m, 0)
            if r == 0:
                cs = codes(m)
                k = self.cls[cs[0]]
                # prefer an alphanumeric representative so it can never collide with layout
                r = chr(cs[-1]) if all(self.cls[c] == k for c in cs) else None
                rep[m] = r
            if r is None:
                return None
            out.append(r)
        return "".join(out)

    def program(self):
        if self.prog is None:
            c = Compiler(self)
            self.prog = c.compile()
            self.conds = tuple(sorted(c.conds))
        return self.prog


_INFO = {}


def info(pat):
    i = _INFO.get(pat)
    if i is None:
        i = _INFO[pat] = Info(pat)
    return i


# ------------------------------------------------------- backtracking matcher
# A small VM: instructions with explicit state (pc, position, counter stack, captures);
# alternatives are tried in sre's priority order and failed states are memoised, so the
# matcher is polynomial even where backtracking is not.
CHAR, SPLIT, JMP, SAVE, REPINIT, REPLOOP, AT_, LOOK, ATOMIC, GREF, COND, MATCH, FAIL = range(13)


def _nullable(t):
    return t.getwidth()[0] == 0


class Compiler:
    def __init__(self, inf):
        self.inf = inf
        self.code = []
        self.conds = set()

    def compile(self):
        self.seq(self.inf.tree, self.inf.flags)
        self.emit(MATCH)
        return self.code

    def emit(self, *ins):
        self.code.append(list(ins))
        return len(self.code) - 1

    def sub(self, t, flags):
        c = Compiler(self.inf)
        c.seq(t, flags)
        c.emit(MATCH)
        self.conds |= c.conds
        return c.code

    def seq(self, items, flags):
        for op, av in items:
            self.node(op, av, flags)

    def node(self, op, av, flags):
        inf = self.inf
        if op is C.LITERAL or op is C.NOT_LITERAL:
            mask = inf.lit_mask(av, flags)
            c = chr(av)
            pos = op is C.LITERAL
            if flags & re.I:
                def uni(e, c=c.lower(), pos=pos):
                    return (e.lower() == c) is pos
            else:
                def uni(e, c=c, pos=pos):
                    return (e == c) is pos
            self.emit(CHAR, mask if pos else ALL & ~mask, uni)
        elif op is C.ANY:
            if flags & re.S:
                self.emit(CHAR, ALL, lambda e: True)
            else:
                self.emit(CHAR, ALL & ~NL, lambda e: e != "\n")
        elif op is C.IN:
            mask = inf.item_mask(av, flags)
            cache = {}

            def uni(e, mask=mask, av=av, flags=flags):
                o = ord(e)
                if o < 128:
                    return bool(mask >> o & 1)
                r = cache.get(e)
                if r is None:
                    r = cache[e] = self.uni_in(av, e, flags)
                return r
            self.emit(CHAR, mask, uni)
        elif op is C.SUBPATTERN:
            g, add, rem, t = av
            fl = (flags | add) & ~rem
            if g is None:
                self.seq(t, fl)
            else:
                self.emit(SAVE, g, 0)
                self.seq(t, fl)
                self.emit(SAVE, g, 1)
        elif op is C.BRANCH:
            alts = av[1]
            ends = []
            for n, t in enumerate(alts):
                if n < len(alts) - 1:
                    sp = self.emit(SPLIT, None, None)
                    self.code[sp][1] = len(self.code)
                    self.seq(t, flags)
                    ends.append(self.emit(JMP, None))
                    self.code[sp][2] = len(self.code)
                else:
                    self.seq(t, flags)
            for e in ends:
                self.code[e][1] = len(self.code)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, t = av
            hi = 1 << 30 if hi is C.MAXREPEAT else int(hi)
            lo = int(lo)
            null = _nullable(t)
            lazy = op is C.MIN_REPEAT
            if not null and lo <= 1 and hi == 1 << 30:
                # x* or x+ without counters
                if lo == 1:
                    self.seq(t, flags)
                sp = self.emit(SPLIT, None, None)
                body = len(self.code)
                self.seq(t, flags)
                self.emit(JMP, sp)
                end = len(self.code)
                self.code[sp][1:] = (end, body) if lazy else (body, end)
                return
            if not null and lo == 0 and hi == 1:
                sp = self.emit(SPLIT, None, None)
                body = len(self.code)
                self.seq(t, flags)
                end = len(self.code)
                self.code[sp][1:] = (end, body) if lazy else (body, end)
                return
            self.emit(REPINIT)
            lp = self.emit(REPLOOP, lo, hi, lazy, null, None)
            self.seq(t, flags)
            self.emit(JMP, lp)
            self.code[lp][5] = len(self.code)
        elif op is C.POSSESSIVE_REPEAT:
            lo, hi, t = av
            c = Compiler(inf)
            c.node(C.MAX_REPEAT, (lo, hi, t), flags)
            c.emit(MATCH)
            self.conds |= c.conds
            self.emit(ATOMIC, c.code)
        elif op is C.ATOMIC_GROUP:
            self.emit(ATOMIC, self.sub(av, flags))
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, t = av
            w = 0
            if d < 0:
                lo, hi = t.getwidth()
                if lo != hi:
                    raise Unsupported("variable-width lookbehind")
                w = lo
            self.emit(LOOK, self.sub(t, flags), w, op is C.ASSERT_NOT)
        elif op is C.AT:
            self.emit(AT_, self.at(av, flags), WORD if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY) else NL)
        elif op is C.GROUPREF:
            self.emit(GREF, av, flags)
        elif op is C.GROUPREF_EXISTS:
            g, y, n = av
            self.conds.add(g)
            cd = self.emit(COND, g, None)
            self.seq(y, flags)
            if n:
                j = self.emit(JMP, None)
                self.code[cd][2] = len(self.code)
                self.seq(n, flags)
                self.code[j][1] = len(self.code)
            else:
                self.code[cd][2] = len(self.code)
        elif op is C.FAILURE:
            self.emit(FAIL)
        else:
            raise Unsupported(f"regex op {op}")

    def uni_in(self, av, e, flags):
        neg = False
        hit = False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                hit |= ord(e) == a
            elif o is C.RANGE:
                hit |= a[0] <= ord(e) <= a[1]
            elif o is C.CATEGORY:
                name = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s",
                        C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[a]
                hit |= bool(re.match(name, e, flags & re.A))
        return hit is not neg

    def at(self, av, flags):
        if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not flags & re.M):
            return lambda el, n, i: i == 0
        if av is C.AT_BEGINNING or av is C.AT_BEGINNING_LINE:
            return lambda el, n, i: i == 0 or ch_in(el[i - 1], NL)
        if av is C.AT_END_STRING:
            return lambda el, n, i: i == n
        if av is C.AT_END and not flags & re.M:
            return lambda el, n, i: i == n or (i == n - 1 and ch_in(el[i], NL))
        if av is C.AT_END or av is C.AT_END_LINE:
            return lambda el, n, i: i == n or ch_in(el[i], NL)
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            want = av is C.AT_BOUNDARY

            def w(e):
                return (e.isalnum() or e == "_") if type(e) is str else ch_in(e, WORD)

            def at(el, n, i):
                if n == 0:
                    return False
                a = i > 0 and w(el[i - 1])
                b = i < n and w(el[i])
                return (a != b) is want
            return at
        raise Unsupported(f"regex anchor {av}")


def _vm(code, el, n, i0, caps0, conds, accept, memo):
    """Run the VM; returns (end, caps) or None.  caps: dict-free tuple + lastindex at [0]."""
    seen = set() if memo else None
    stack = [(0, i0, None, caps0)]
    steps = 0
    while stack:
        pc, i, cnt, caps = stack.pop()
        while True:
            steps += 1
            if not steps & 255:
                core.EX.tick(64)
            ins = code[pc]
            op = ins[0]
            if op == CHAR:
                if i >= n:
                    break
                e = el[i]
                if type(e) is str:
                    if not ins[2](e):
                        break
                elif not ch_in(e, ins[1]):
                    break
                i += 1
                pc += 1
            elif op == SPLIT:
                if seen is not None:
                    key = (pc, i, cnt) if not conds else (pc, i, cnt, tuple(caps[2 * g + 2] >= 0 for g in conds))
                    if key in seen:
                        break
                    seen.add(key)
                stack.append((ins[2], i, cnt, caps))
                pc = ins[1]
            elif op == JMP:
                pc = ins[1]
            elif op == SAVE:
                g = ins[1]
                if ins[2]:
                    # close: commit the pending start
                    c = list(caps)
                    c[2 * g + 1] = c[-g]
                    c[2 * g + 2] = i
                    c[0] = g
                    caps = tuple(c)
                else:
                    c = list(caps)
                    c[-g] = i
                    caps = tuple(c)
                pc += 1
            elif op == REPINIT:
                cnt = (0, -1, cnt)
                pc += 1
            elif op == REPLOOP:
                _, lo, hi, lazy, null, end = ins
                k, last, up = cnt
                if k < lo:
                    cnt = (k + 1, last, up)
                    pc += 1
                    continue
                if seen is not None:
                    key = (pc, i, cnt) if not conds else (pc, i, cnt, tuple(caps[2 * g + 2] >= 0 for g in conds))
                    if key in seen:
                        break
                    seen.add(key)
                can = k < hi and not (null and i == last)
                k2 = k + 1 if hi < 1 << 30 else lo
                nxt = (k2, i if null else -1, up)
                if lazy:
                    if can:
                        stack.append((pc + 1, i, nxt, caps))
                    pc, cnt = end, up
                elif can:
                    stack.append((end, i, up, caps))
                    pc, cnt = pc + 1, nxt
                else:
                    pc, cnt = end, up
            elif op == AT_:
                if not ins[1](el, n, i):
                    break
                pc += 1
            elif op == LOOK:
                j = i - ins[2]
                r = _vm(ins[1], el, n, j, caps, conds, None, memo) if j >= 0 else None
                if ins[3]:
                    if r is not None:
                        break
                else:
                    if r is None:
                        break
                    caps = r[1]
                pc += 1
            elif op == ATOMIC:
                r = _vm(ins[1], el, n, i, caps, conds, None, memo)
                if r is None:
                    break
                i, caps = r
                pc += 1
            elif op == GREF:
                a, b = caps[2 * ins[1] + 1], caps[2 * ins[1] + 2]
                if b < 0:
                    break
                ok = True
                for j in range(a, b):
                    if i >= n:
                        ok = False
                        break
                    x, y = el[j], el[i]
                    if ins[2] & re.I:
                        x = x.lower() if type(x) is str else x.mapped(str.lower, "lower")
                        y = y.lower() if type(y) is str else y.mapped(str.lower, "lower")
                    if not ch_eq(x, y):
                        ok = False
                        break
                    i += 1
                if not ok:
                    break
                pc += 1
            elif op == COND:
                pc = pc + 1 if caps[2 * ins[1] + 2] >= 0 else ins[2]
            elif op == MATCH:
                if accept is not None and not accept(i):
                    break
                return i, caps
            else:  # FAIL
                break
    return None


def _may(code, el, n, i0, conds, full):
    """Could any choice of the characters' values let the program match at i0?

    Never forks and never excludes a possible match: a character passes a test when some value
    of it does, and what cannot be judged so is taken to pass.
    """
    seen = set()
    stack = [(0, i0, None)]
    steps = 0
    while stack:
        pc, i, cnt = stack.pop()
        while True:
            steps += 1
            if not steps & 255:
                core.EX.tick(64)
            ins = code[pc]
            op = ins[0]
            if op == CHAR:
                if i >= n:
                    break
                e = el[i]
                if type(e) is str:
                    if not ins[2](e):
                        break
                elif not e.dom() & ins[1]:
                    break
                i += 1
                pc += 1
            elif op == SPLIT:
                if (pc, i, cnt) in seen:
                    break
                seen.add((pc, i, cnt))
                stack.append((ins[2], i, cnt))
                pc = ins[1]
            elif op == JMP:
                pc = ins[1]
            elif op == SAVE:
                pc += 1
            elif op == REPINIT:
                cnt = (0, -1, cnt)
                pc += 1
            elif op == REPLOOP:
                _, lo, hi, _, null, end = ins
                k, last, up = cnt
                if k < lo:
                    cnt = (k + 1, last, up)
                    pc += 1
                    continue
                if (pc, i, cnt) in seen:
                    break
                seen.add((pc, i, cnt))
                if k < hi and not (null and i == last):
                    stack.append((end, i, up))
                    cnt = (k + 1 if hi < 1 << 30 else lo, i if null else -1, up)
                    pc += 1
                else:
                    pc, cnt = end, up
            elif op == AT_:
                mixed = False
                for j in (i - 1, i):
                    if 0 <= j < n and type(el[j]) is not str:
                        d = el[j].dom()
                        mixed |= bool(d & ins[2]) and d & ins[2] != d
                if not mixed and not ins[1](el, n, i):
                    break
                pc += 1
            elif op == LOOK:
                if not ins[3] and (i < ins[2] or not _may(ins[1], el, n, i - ins[2], conds, False)):
                    break
                pc += 1
            elif op == MATCH:
                if full and i != n:
                    break
                return True
            elif op == FAIL:
                break
            else:  # ATOMIC, GREF, COND: not judged
                return True
    return False


def _slow_search(inf, s, pos, endpos, mode, must_advance=False):
    code = inf.program()
    el = s.el if type(s) is SymStr else tuple(s)
    n = min(endpos, len(el))
    ng = inf.pat.groups
    caps0 = (None,) + (-1,) * (3 * ng + 2)
    i = pos
    while i <= n:
        core.EX.tick(3)

        def accept(x, i=i):
            if mode == "fullmatch" and x != n:
                return False
            return not (must_advance and x == pos and i == pos)
        r = None
        if _may(code, el, n, i, inf.conds, mode == "fullmatch"):
            r = _vm(code, el, n, i, caps0, inf.conds, accept, not inf.backref)
        if r is not None:
            caps = r[1]
            spans = [(i, r[0])]
            for g in range(1, ng + 1):
                spans.append((caps[2 * g + 1], caps[2 * g + 2]) if caps[2 * g + 2] >= 0 else (-1, -1))
            return spans, caps[0]
        if mode != "search":
            return None
        i += 1
    return None


class SymMatch:
    """A match whose groups may be symbolic."""

    def __init__(self, pat, string, spans, last, pos, endpos):
        self.re = pat
        self.string = string
        self._spans = spans
        self._last = last
        self.pos = pos
        self.endpos = endpos

    @property
    def __class__(self):
        return re.Match

    @property
    def regs(self):
        return tuple(self._spans)

    @property
    def lastindex(self):
        return self._last

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self._last:
                return k
        return None

    def _ix(self, g):
        if isinstance(g, str):
            if type(g) is SymStr:
                g = g.norm()
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group") from None
        if g < 0 or g > self.re.groups:
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        a, b = self._spans[self._ix(g)]
        if a < 0:
            return default
        return self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.re.groupindex.items()}

    def span(self, g=0):
        return self._spans[self._ix(g)]

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, template):
        return _expand(self, template)

    def __bool__(self):
        return True


def _do(pat, s, pos, endpos, mode, must_advance=False):
    """One match attempt; returns SymMatch or None."""
    inf = info(pat)
    n = len(s)
    pos = max(0, min(pos, n))
    endpos = max(0, min(endpos, n))
    core.EX.tick(1)
    if not must_advance:
        rep = inf.rep_string(s)
        if rep is not None:
            m = getattr(pat, mode)(rep, pos, endpos)
            if m is None:
                return None
            return SymMatch(pat, s, list(m.regs), m.lastindex, pos, endpos)
    r = _slow_search(inf, s, pos, endpos, mode, must_advance)
    if r is None:
        return None
    return SymMatch(pat, s, r[0], r[1], pos, endpos)


def compile_(pat, flags=0):
    if isinstance(pat, re.Pattern):
        return pat
    if type(pat) is SymStr:
        pat = pat.norm()
        if type(pat) is SymStr:
            raise Unsupported("symbolic regular expression")
    return re.compile(pat, flags)


def p_search(pat, s, pos=0, endpos=1 << 60):
    return _do(pat, s, pos, endpos, "search")


def p_match(pat, s, pos=0, endpos=1 << 60):
    return _do(pat, s, pos, endpos, "match")


def p_fullmatch(pat, s, pos=0, endpos=1 << 60):
    return _do(pat, s, pos, endpos, "fullmatch")


def p_finditer(pat, s, pos=0, endpos=1 << 60):
    inf = info(pat)
    rep = inf.rep_string(s)
    if rep is not None:
        for m in pat.finditer(rep, pos, min(endpos, len(rep))):
            yield SymMatch(pat, s, list(m.regs), m.lastindex, pos, endpos)
        return
    n = min(endpos, len(s))
    i = pos
    adv = False
    while i <= n:
        m = _do(pat, s, i, n, "search", adv)
        if m is None:
            return
        yield m
        a, b = m.span()
        adv = a == b
        i = b


def p_findall(pat, s, pos=0, endpos=1 << 60):
    out = []
    for m in p_finditer(pat, s, pos, endpos):
        if pat.groups == 0:
            out.append(m.group(0))
        elif pat.groups == 1:
            out.append(m._get(1, ""))
        else:
            out.append(m.groups(""))
    return out


def p_split(pat, s, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in p_finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(s[last:a])
        out.extend(m.groups())
        last = b
        n += 1
    out.append(s[last:])
    return out


def _expand(m, template):
    if type(template) is SymStr:
        raise Unsupported("symbolic regex template")
    if "\\" not in template:
        return template
    t = P.parse_template(template, m.re)
    # 3.12: list alternating literal / group index
    out = ""
    if isinstance(t, list):
        for x in t:
            out = out + (x if isinstance(x, str) else (m._get(x) or "") if isinstance(x, int) else "")
        return out
    raise Unsupported("regex template")


def p_subn(pat, repl, s, count=0):
    from .models import sx_call
    out = []
    last = 0
    n = 0
    for m in p_finditer(pat, s):
        if count and n >= count:
            break
        a, b = m.span()
        out.extend(elems(s[last:a]))
        r = sx_call(repl, m) if callable(repl) else _expand(m, repl)
        out.extend(elems(r))
        last = b
        n += 1
    out.extend(elems(s[last:]))
    return mk(out), n


def p_sub(pat, repl, s, count=0):
    return p_subn(pat, repl, s, count)[0]


PATTERN_METHODS = dict(search=p_search, match=p_match, fullmatch=p_fullmatch, finditer=p_finditer,
                       findall=p_findall, split=p_split, sub=p_sub, subn=p_subn)
