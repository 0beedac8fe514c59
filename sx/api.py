"""What a harness sees: symbolic inputs and assertions (symbolic side)."""
from __future__ import annotations

import z3

from . import core, models
from .core import Violated
from .values import (BoolVar, ByteVar, CharVar, Ch, Const, IntVar, SymBool, SymBytes, SymFloat, SymInt, SymStr,
                     SymFrac, iexpr as models_iexpr, bexpr, concretize, elems, has_sym, is_str, is_sym, mask_of, mk, mkbool)

ALPHABETS = {
    "digit": "0123456789",
    "lower": "abcdefghijklmnopqrstuvwxyz",
    "upper": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "alpha": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "word": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_",
    "print": "".join(chr(i) for i in range(32, 127)),
    "nospace": "".join(chr(i) for i in range(33, 127)),
    "sign": "+-",
}


class Sym:
    symbolic = True

    def __init__(self, ex, tier):
        self.ex = ex
        self.tier = tier
        self.thorough = tier == "thorough"

    # ----------------------------------------------------------------- inputs
    def choice(self, *opts):
        """One of the options; every option is explored."""
        k = self.ex.fork(len(opts))
        self.ex.inputs.append(Const(k))
        return opts[k]

    def count(self, lo, hi):
        return lo + self.choice(*range(hi - lo + 1))

    def flag(self):
        return self.choice(False, True)

    def int(self, lo, hi):
        """A symbolic integer (the solver ranges over all of lo..hi)."""
        v = IntVar(self.ex.fresh("i"), lo, hi)
        self.ex.inputs.append(v)
        return SymInt(v.z)

    def bool(self):
        v = BoolVar(self.ex.fresh("b"))
        self.ex.inputs.append(v)
        return SymBool(v.b)

    def chars(self, n, alphabet):
        """n symbolic characters from an alphabet (name or string)."""
        dom = mask_of(ALPHABETS.get(alphabet, alphabet))
        out = []
        for _ in range(n):
            v = CharVar(self.ex.fresh("c"), dom)
            self.ex.inputs.append(v)
            out.append(Ch(v))
        return mk(out)

    def bytes(self, n):
        out = []
        for _ in range(n):
            v = ByteVar(self.ex.fresh("y"))
            self.ex.inputs.append(v)
            out.append(v.z)
        return SymBytes(out)

    def be32(self, x):
        """The four big-endian bytes of a non-negative integer."""
        if type(x) is not SymInt:
            return int(x).to_bytes(4, "big")
        bs = []
        for _ in range(4):
            z = z3.Int(self.ex.fresh("m"))
            self.ex.add(z3.And(z >= 0, z <= 255))
            bs.append(z)
        self.ex.add(bs[0] * (1 << 24) + bs[1] * (1 << 16) + bs[2] * 256 + bs[3] == x.e)
        models.BE32[tuple(b.get_id() for b in bs)] = (x.e, bs)
        return SymBytes(bs)

    def same(self, a, b):
        """Whether two integers are the same term (a hint for models, never a verdict)."""
        if type(a) is not SymInt and type(b) is not SymInt:
            return a == b
        return z3.is_true(z3.simplify(models_iexpr(a) == models_iexpr(b)))

    # ------------------------------------------------------------- environment
    def file(self, text, name="seed.txt"):
        if not isinstance(text, str):
            text = "".join_sym(text) if False else models.str_join("", list(text))
        return models.SymTextFile(text, name=name)

    def binfile(self, data, name="seed.bin"):
        from .binfile import SymBinFile
        return SymBinFile(data, name=name)

    def fs(self, files):
        """The files the code can see: name -> content, or (content, exists) with exists possibly symbolic."""
        from . import fakefs
        fakefs.add(files)
        for f, m in fakefs.stubs().items():
            self.stub(f, m)

    def written(self, name):
        """The content of a file, as the code left it; None if there is none."""
        from . import fakefs
        return fakefs.text_of(fakefs.FILES[fakefs.norm(name)][0]) if fakefs.exists(name) else None

    def serialisers(self):
        """What serialisers write is kept as the data they were given."""
        from . import dumpstub
        for f, m in dumpstub.stubs().items():
            self.stub(f, m)

    def read_back(self, fmt, text):
        from . import dumpstub
        return dumpstub.read_back(fmt, text)

    def path(self, name):
        from .fakefs import SymPath
        return SymPath(name)

    def stub(self, fn, model):
        """Replace an environment function for this path."""
        models.USER_MODELS[fn] = model
        self._stubs = getattr(self, "_stubs", [])
        self._stubs.append(fn)

    def unstub(self):
        for f in getattr(self, "_stubs", []):
            models.USER_MODELS.pop(f, None)
        self._stubs = []

    # -------------------------------------------------------------- assertions
    def assume(self, c):
        if type(c) is SymBool:
            self.ex.assume(c.e)
        elif not c:
            raise core.Infeasible()

    def check(self, c, msg):
        if type(c) is SymBool:
            self.ex.prove(c.e, msg)
        else:
            self.ex.prove(bool(c), msg)

    def fail(self, msg):
        raise Violated(msg)

    def eq(self, actual, expected, msg):
        """Deep equality, decided by the solver for all values on this path."""
        conds = []
        deep(actual, expected, msg, conds)
        if conds:
            try:
                self.ex.prove(z3.And([c for _, c in conds]) if len(conds) > 1 else conds[0][1], msg)
            except Violated:
                where = msg
                m = self.ex.model
                for p, c in conds:
                    if not z3.is_true(m.eval(c, model_completion=True)):
                        where = p
                        break
                raise Violated(where) from None
        else:
            self.ex.prove(True, msg)

    def raises(self, exc, fn, msg):
        try:
            r = fn()
        except exc:
            self.ex.stats["obligations"] += 1
            self.ex.stats["proved"] += 1
            return
        raise Violated(f"{msg}: no error raised, returned {short(r)}")

    def unless(self, cond, msg):
        self.check(cond, msg)

    def note(self, x):
        pass


def short(x):
    try:
        return repr(x)[:200]
    except BaseException:  # noqa: BLE001
        return f"<{type(x).__name__}>"


def cls(x):
    c = x.__class__ if is_sym(x) else type(x)
    if issubclass(c, bool):
        return bool
    if issubclass(c, dict):
        return dict
    if issubclass(c, str):
        return str
    if issubclass(c, (list, tuple)):
        return tuple
    return c


_EQ = {}


def same_text(a, e):
    """Equality of two texts made of the same symbolic characters, as a formula for the solver."""
    key = tuple((x.var.name, y.var.name) for x, y in zip(elems(a), elems(e))
                if type(x) is Ch and type(y) is Ch and hasattr(x.var, "name") and hasattr(y.var, "name"))
    if not key:
        return None
    r = _EQ.get(key)
    if r is None:
        if len(_EQ) > 20000:
            _EQ.clear()
        r = _EQ[key] = z3.And([z3.Int(x) == z3.Int(y) for x, y in dict.fromkeys(key)])
    return r


def deep(a, e, path, out):
    ce, ca = cls(e), cls(a)
    if hasattr(e, "sx_match"):
        e.sx_match(a, path, out, deep)
        return
    if ce is not ca:
        if ce is float and ca.__name__ == "Fraction" or ca is float and ce.__name__ == "Fraction":
            pass
        else:
            raise Violated(f"{path}: expected {ce.__name__} {short(e)}, got {ca.__name__} {short(a)}")
    if ce is dict:
        ek, ak = list(e), list(a)
        if len(ek) != len(ak) or (not has_sym(ek) and not has_sym(ak) and set(ek) != set(ak)):
            raise Violated(f"{path}: keys {short(ak)} differ from expected {short(ek)}")
        for k in ek:
            kk = models.key_of(a, k)
            if kk is models._MISS:
                raise Violated(f"{path}: key {short(k)} missing, have {short(ak)}")
            deep(dict.__getitem__(a, kk), dict.__getitem__(e, k), f"{path}.{short(k)}", out)
        return
    if ce is tuple:
        if len(a) != len(e):
            raise Violated(f"{path}: length {len(a)} differs from expected {len(e)}")
        for n, (x, y) in enumerate(zip(a, e)):
            deep(x, y, f"{path}[{n}]", out)
        return
    if ce is str:
        if type(a) is str and type(e) is str:
            if a != e:
                raise Violated(f"{path}: {a!r} differs from expected {e!r}")
            return
        r = (a if type(a) is SymStr else SymStr(tuple(a))).eq_expr(e)
        if r is False:
            raise Violated(f"{path}: text {short(a)} differs from expected {short(e)}")
        if r is not True:
            out.append((path, r))
        else:
            r = same_text(a, e)
            if r is not None:
                out.append((path, r))
        return
    if is_sym(a) or is_sym(e):
        if not is_sym(a):
            a, e = e, a
        if type(a) is SymFloat:
            r = a.eq_expr(e)
        elif type(a) is SymInt:
            from .values import iexpr
            r = a.e == iexpr(e)
        elif type(a) is SymBool:
            r = a.e == bexpr(e)
        elif type(a) is SymFrac:
            r = a.to_float().eq_expr(e)
        else:
            r = a == e
            r = r.e if type(r) is SymBool else r
        if r is False:
            raise Violated(f"{path}: values differ")
        if r is not True:
            out.append((path, r))
        return
    if a != e and not (a != a and e != e):
        raise Violated(f"{path}: {short(a)} differs from expected {short(e)}")
