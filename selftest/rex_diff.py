"""Differential check of the backtracking matcher against the C `re` engine.

Patterns: every regular expression the package compiles while parsing its own test data,
plus hand-written ones covering the operators.  Subjects: lines of the test data, mutated.
"""
import glob
import random
import re
import sys

sys.path.insert(0, "/verif")
from sx import core, rex  # noqa: E402
from sx.values import SymStr  # noqa: E402

core.set_ex(core.Explorer(op_limit=10**12))
seen = {}
_oc = re.compile


def spy(p, flags=0):
    r = _oc(p, flags)
    seen[r] = 1
    return r


_olds = re._compile


def spy2(p, flags):
    r = _olds(p, flags)
    if isinstance(r, re.Pattern):
        seen[r] = 1
    return r


re.compile = spy
re._compile = spy2
sys.path.insert(0, "/repo")
import logging  # noqa: E402
logging.disable(50)
from castep_outputs.cli.castep_outputs_main import parse_single  # noqa: E402
lines = []
for f in sorted(glob.glob("/repo/test/data_files/*")):
    try:
        parse_single(f, loglevel=50)
        ls = open(f).read().splitlines(keepends=True)
        random.Random(1).shuffle(ls)
        lines += ls[:60]
    except Exception:
        pass
re._compile = _olds
re.compile = _oc
short = [ln for ln in lines if len(ln) < 90]
hand = [r"(a|ab)(c|bcd)(d*)", r"(?:a*)*b", r"(a*)+", r"(?P<x>a)?b(?(x)c|d)", r"(a+?)(b??)c*", r"\bfoo\b|\Bo", r"(?<=a)b(?!c)",
        r"(\w+)\s+\1", r"^\s*$", r"a{2,3}?b", r"(?:a|b|){3}", r"(x*)*y?", r"(?i)AbC[d-f]+", r"(?:)+a", r"\d*?\.?\d+",
        r"(?>a+)b", r"a++b", r"(?m)^a$", r"(a)|(b)|c", r"((a)|b)*"]
pats = list(seen) + [re.compile(h) for h in hand]
rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
n = bad = 0
alpha = "ab c.dD01-+|\n_Ex"
import time
for p in pats:
    _t=time.time()
    if not isinstance(p.pattern, str):
        continue
    try:
        inf = rex.info(p)
        inf.program()
    except core.Unsupported as e:
        print("unsupported", e, p.pattern[:60])
        continue
    subj = rng.sample(lines, 25) + ["".join(rng.choice(alpha) for _ in range(rng.randint(0, 9))) for _ in range(40)]
    # prefer lines it matches
    subj += [ln for ln in rng.sample(short, min(len(short), 400)) if 'key>[a-z_]' not in p.pattern and p.search(ln)][:10]
    for s in subj:
        s = s[:120]
        if p.pattern.startswith('\n^\\s*(?P<key>[a-z_]+)') and len(s) > 30:
            continue  # exponential in the C engine
        for mode in ("search", "match", "fullmatch"):
            m = getattr(p, mode)(s)
            r = rex._slow_search(inf, s, 0, len(s), mode)
            n += 1
            if (m is None) != (r is None) or (m is not None and list(m.regs) != r[0]):
                bad += 1
                if bad < 15:
                    print("DIFF", mode, repr(p.pattern)[:150], repr(s), m and m.regs, r)
        a = [m.regs for m in p.finditer(s)]
        # iteration in slow mode
        old = inf.rep_string
        inf.rep_string = lambda s: None
        ss = SymStr(tuple(s)) if s else SymStr(())
        b = [m.regs for m in rex.p_finditer(p, ss)]
        inf.rep_string = old
        if time.time()-_t>2:
            print('SLOW',repr(p.pattern)[:300],repr(s)); break
        n += 1
        if a != b:
            bad += 1
            if bad < 15:
                print("ITER", repr(p.pattern)[:150], repr(s), a, b)
print("patterns", len(pats), "comparisons", n, "differences", bad)
sys.exit(bad > 0)
