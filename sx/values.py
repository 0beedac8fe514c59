"""Symbolic proxy values.

A proxy never subclasses a builtin (C code must not silently read it as empty or
zero), but reports the builtin through ``__class__`` so isinstance, ``match`` class
patterns and ``singledispatch`` treat it as the type it stands for.
"""
from __future__ import annotations

from fractions import Fraction

import z3

from . import core
from .core import Unsupported, Violated  # noqa: F401

# ------------------------------------------------------------------ char sets
ALL = (1 << 128) - 1


def mask_of(chars) -> int:
    m = 0
    for c in chars:
        m |= 1 << ord(c)
    return m


def mask_pred(pred) -> int:
    m = 0
    for i in range(128):
        if pred(chr(i)):
            m |= 1 << i
    return m


WS = mask_pred(str.isspace)
DIGIT = mask_pred(str.isdigit)
ALPHA = mask_pred(str.isalpha)
ALNUM = mask_pred(str.isalnum)
UPPER = mask_pred(str.isupper)
LOWER = mask_pred(str.islower)
WORD = ALNUM | mask_of("_")


def codes(mask):
    out = []
    i = 0
    while mask:
        low = mask & -mask
        out.append(low.bit_length() - 1)
        mask ^= low
    return out


def in_mask_expr(z, mask):
    cs = codes(mask)
    if not cs:
        return z3.BoolVal(False)
    runs = []
    s = p = cs[0]
    for c in cs[1:]:
        if c == p + 1:
            p = c
            continue
        runs.append((s, p))
        s = p = c
    runs.append((s, p))
    return z3.Or([z == a if a == b else z3.And(z >= a, z <= b) for a, b in runs])


_TERMS = {}


def char_term(name, dom):
    """The z3 constant of a character and its domain constraint (terms are shared by all paths)."""
    r = _TERMS.get((name, dom))
    if r is None:
        z = z3.Int(name)
        r = _TERMS[(name, dom)] = (z, in_mask_expr(z, dom))
    return r


class CharVar:
    __slots__ = ("name", "dom", "z", "lo")

    def __init__(self, name, dom):
        self.name = name
        self.dom = dom
        self.z = None

    def zexpr(self):
        if self.z is None:
            self.z, c = char_term(self.name, self.dom)
            core.EX.add(c)
        return self.z

    # recorded-input protocol
    def zvar(self):
        return self.z

    def free_value(self, rng):
        return chr(rng.choice(codes(self.dom)))

    def rand(self, rng):
        return rng.choice(codes(self.dom))

    def decode(self, v):
        return chr(v)


_TABS = {}


class Ch:
    """A symbolic character: a variable, optionally through a code->code table."""

    __slots__ = ("var", "tab", "tabkey", "_zd")

    def __init__(self, var, tab=None, tabkey=None):
        self.var = var
        self.tab = tab
        self.tabkey = tabkey

    def dom(self):
        d = self.var.dom
        if self.tab is None:
            return d
        key = (self.tabkey, d)
        r = _TABS.get(key)
        if r is None:
            r = 0
            for c in codes(d):
                r |= 1 << self.tab[c]
            _TABS[key] = r
        return r

    def pre(self, mask):
        """Mask over the variable for 'this char is in mask'."""
        if self.tab is None:
            return mask
        r = 0
        for c in codes(self.var.dom):
            if mask >> self.tab[c] & 1:
                r |= 1 << c
        return r

    def zexpr(self):
        z = self.var.zexpr()
        if self.tab is None:
            return z
        groups = {}
        for c in codes(self.var.dom):
            groups.setdefault(self.tab[c] - c, 0)
            groups[self.tab[c] - c] |= 1 << c
        items = list(groups.items())
        e = z + items[-1][0]
        for off, m in items[:-1]:
            e = z3.If(in_mask_expr(z, m), z + off, e)
        return e

    def mapped(self, fn, key):
        base = self.tab or list(range(128))
        tab = [ord(fn(chr(c))) if len(fn(chr(c))) == 1 and ord(fn(chr(c))) < 128 else c for c in base]
        d = 0
        for c in codes(self.var.dom):
            d |= 1 << tab[c]
        if d & (d - 1) == 0:
            return chr(d.bit_length() - 1)
        if all(tab[c] == base[c] for c in codes(self.var.dom)):
            return self
        return Ch(self.var, tab, (self.tabkey, key))


def single(ch):
    """Collapse a one-value symbolic char to a plain str."""
    d = ch.dom()
    if d & (d - 1) == 0:
        return chr(d.bit_length() - 1)
    return ch


def _narrow(var, mask, want):
    var.dom = var.dom & mask if want else var.dom & ~mask


def ch_in(ch, mask) -> bool:
    """Decide whether ch is in mask, forking when both are possible."""
    if type(ch) is str:
        o = ord(ch)
        return o < 128 and bool(mask >> o & 1)
    var = ch.var
    pm = mask if ch.tab is None else ch.pre(mask)
    d = var.dom
    t = d & pm
    if not t:
        return False
    if t == d:
        return True
    ex = core.EX
    if var.z is None:
        v = ex.fork(2) == 0
        var.dom = t if v else d & ~pm
        return v
    e = in_mask_expr(var.z, t)
    v = ex.branch(e)
    var.dom = t if v else d & ~pm
    return v


def ch_eq(a, b) -> bool:
    if a is b:
        return True
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        o = ord(b)
        return o < 128 and ch_in(a, 1 << o)
    if a.var is b.var and a.tabkey == b.tabkey:
        return True
    da, db = a.dom(), b.dom()
    if not da & db:
        return False
    if not ch_in(a, db):
        return False
    if not ch_in(b, da):
        return False
    if a.dom() & (a.dom() - 1) == 0 and a.dom() == b.dom():
        return True
    return core.EX.branch(a.zexpr() == b.zexpr())


def ch_eq_expr(a, b):
    """z3 expression for equality (no forking)."""
    if a is b:
        return True
    ta, tb = type(a) is str, type(b) is str
    if ta and tb:
        return a == b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if tb:
        o = ord(b)
        if o >= 128 or not a.dom() >> o & 1:
            return False
        if a.dom() == 1 << o:
            return True
        return in_mask_expr(a.var.zexpr(), a.pre(1 << o)) if a.tab else a.zexpr() == o
    if a.var is b.var and a.tabkey == b.tabkey:
        # identical term: still goes to the solver as a trivially valid fact
        return a.zexpr() == b.zexpr()
    if not a.dom() & b.dom():
        return False
    return a.zexpr() == b.zexpr()


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.EX.branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymInt(z3.If(self.e, z3.IntVal(-2), z3.IntVal(-1)))

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.e == bexpr(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, bool):
            return mkbool(self.e != bexpr(o))
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) + o

    __radd__ = __add__

    def __repr__(self):
        return f"<symbool {str(self.e)[:60]}>"


def bexpr(b):
    if type(b) is SymBool:
        return b.e
    return z3.BoolVal(bool(b))


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


# ------------------------------------------------------------------ integers
def is_num(x):
    return type(x) in (int, bool, SymInt, SymBool)


def iexpr(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def _bin(self, o, f):
        if not is_num(o):
            if type(o) is float:
                return f(SymFloat.of(self), o)
            return NotImplemented
        return mkint(z3.simplify(f(self.e, iexpr(o))))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return concretize(self) * o
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def _floordiv(self, a, b):
        # Python floor division
        if z3.is_int_value(b) and b.as_long() > 0:
            return a / b
        raise Unsupported("integer division by a symbolic or non-positive value")

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        return mkint(z3.simplify(self._floordiv(self.e, iexpr(o))))

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        b = iexpr(o)
        if z3.is_int_value(b) and b.as_long() > 0:
            return mkint(z3.simplify(self.e % b))
        raise Unsupported("modulo by a symbolic or non-positive value")

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // concretize(self)

    def __rmod__(self, o):
        return o % concretize(self)

    def __truediv__(self, o):
        return SymFloat.of(self) / o

    def __rtruediv__(self, o):
        return o / SymFloat.of(self)

    def __pow__(self, o):
        return concretize(self) ** o

    def __rpow__(self, o):
        return o ** concretize(self)

    def __lshift__(self, o):
        return self * (1 << concretize(o))

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, o):
        return self // (1 << concretize(o))

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return concretize(self) & concretize(o)

    __rand__ = __and__

    def __or__(self, o):
        return concretize(self) | concretize(o)

    __ror__ = __or__

    def __invert__(self):
        return mkint(-self.e - 1)

    def _cmp(self, o, f):
        if type(o) is float:
            if o == int(o):
                o = int(o)
            else:
                o = Fraction(o)
                return mkbool(z3.simplify(f(z3.ToReal(self.e), z3.RealVal(str(o)))))
        if not is_num(o):
            return NotImplemented
        return mkbool(z3.simplify(f(self.e, iexpr(o))))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return core.EX.branch(self.e != 0)

    def __hash__(self):
        return SYMHASH

    def __index__(self):
        return concretize(self)

    def bit_length(self):
        return concretize(self).bit_length()

    def to_bytes(self, *a, **k):
        return concretize(self).to_bytes(*a, **k)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __float__(self):
        raise Unsupported("float() of a symbolic int from C code")

    def __repr__(self):
        return f"<symint {str(self.e)[:60]}>"

    def __format__(self, spec):
        raise Unsupported("format of symbolic int from C code")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


SYMHASH = 0x5157
CONC_LIMIT = 80


def concretize(x):
    """Enumerate the feasible values of a symbolic int by forking."""
    if type(x) is SymBool:
        return bool(x)
    if type(x) is not SymInt:
        return x
    ex = core.EX
    ex.stats["concretised"] += 1
    n = 0
    while True:
        if ex.replaying():
            # the candidate value was stored as part of the entry
            val = ex.trace[ex.pos][2]["val"] if isinstance(ex.trace[ex.pos][2], dict) and "val" in (ex.trace[ex.pos][2] or {}) else None
            if val is None:
                raise Unsupported("trace misaligned in concretize")
            chosen = ex.trace[ex.pos][0]
            ex.pos += 1
            if chosen is True:
                return val
            continue
        n += 1
        if n > CONC_LIMIT:
            raise Unsupported("too many values for a symbolic integer used as an index")
        ex.tick(20)
        if ex.model is None:
            if ex._check() != z3.sat:
                raise core.Infeasible()
            ex.model = ex.solver.model()
        val = ex.model.eval(x.e, model_completion=True).as_long()
        keep = ex.model
        others = ex._feasible(x.e != val)
        ex.model = keep
        if others:
            ex._record(True, [False], {True: x.e == val, False: x.e != val, "val": val})
        else:
            ex._record(True, None, {"val": val})
        if ex.trace[-1][0] is True:
            return val


class IntVar:
    """A symbolic integer input."""

    def __init__(self, name, lo, hi):
        self.lo, self.hi = lo, hi
        self.z = z3.Int(name)
        core.EX.add(z3.And(self.z >= lo, self.z <= hi))

    def zvar(self):
        return self.z

    def rand(self, rng):
        if rng.random() < 0.2:
            return rng.choice([self.lo, self.hi])
        return rng.randint(self.lo, self.hi)

    def decode(self, v):
        return v


class BoolVar:
    def __init__(self, name):
        self.b = z3.Bool(name)
        self.z = z3.If(self.b, z3.IntVal(1), z3.IntVal(0))

    def zvar(self):
        return self.z

    def rand(self, rng):
        return rng.randint(0, 1)

    def decode(self, v):
        return bool(v)


class Const:
    def __init__(self, v):
        self.v = v

    def zvar(self):
        return None

    def free_value(self, rng):
        return self.v


# -------------------------------------------------------------------- floats
class SymFloat:
    """Symbolic float.

    kind 'lit': value = num * 10**e10 with num, e10 z3 Int terms (exact decimal literal;
                equality of literals is decided on the decimals, see DESIGN 'floats').
    kind 'bits': the IEEE bytes are symbolic; equality is equality of the bytes.
    kind 'op':  result of arithmetic; a z3 Real term over the literals (exact-real
                approximation) when available, plus a structural key.
    """

    __slots__ = ("kind", "num", "e10", "bits", "key", "r")

    def __init__(self, kind, num=None, e10=None, bits=None, key=None, r=None):
        self.kind, self.num, self.e10, self.bits, self.key, self.r = kind, num, e10, bits, key, r

    @property
    def __class__(self):
        return float

    @staticmethod
    def lit(num, e10):
        return SymFloat("lit", num=num, e10=e10)

    @staticmethod
    def of(x):
        if type(x) is SymFloat:
            return x
        if type(x) in (SymInt, SymBool):
            return SymFloat("lit", num=iexpr(x), e10=0)
        if isinstance(x, bool) or type(x) is int:
            return SymFloat("lit", num=z3.IntVal(int(x)), e10=0)
        if type(x) is float:
            if x != x or x in (float("inf"), float("-inf")):
                raise Unsupported("non-finite float mixed with a symbolic float")
            t = repr(x)
            m, _, e = t.partition("e")
            ip, _, fp = m.partition(".")
            return SymFloat("lit", num=z3.IntVal(int(ip + fp)), e10=(int(e) if e else 0) - len(fp))
        if type(x) is SymFrac:
            return x.to_float()
        if isinstance(x, Fraction):
            return SymFloat.of(float(x))
        raise Unsupported(f"float of {type(x).__name__}")

    def real_expr(self):
        if self.kind == "lit":
            e = self.e10
            if not isinstance(e, int):
                e = concretize(SymInt(e))
                self.e10 = e
            n = z3.ToReal(self.num)
            return n * z3.RealVal(10 ** e) if e >= 0 else n / z3.RealVal(10 ** -e)
        if self.kind == "op":
            if self.r is None:
                raise Unsupported("value of an uninterpreted float operation")
            return self.r
        raise Unsupported("arithmetic on raw float bits")

    def _op(self, name, o, rf, rev=False):
        try:
            o = SymFloat.of(o)
        except Unsupported:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        try:
            r = rf(a.real_expr(), b.real_expr())
        except Unsupported:
            r = None
        return SymFloat("op", key=(name, a, b), r=r)

    def __add__(self, o):
        if type(o) in (complex, SymComplex):
            return SymComplex.of(self) + o
        return self._op("+", o, lambda a, b: a + b)

    def __radd__(self, o):
        if type(o) is complex:
            return SymComplex.of(o) + SymComplex.of(self)
        return self._op("+", o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._op("-", o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op("-", o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if type(o) is complex:
            return SymComplex.of(self) * o
        return self._op("*", o, lambda a, b: a * b)

    def __rmul__(self, o):
        if type(o) is complex:
            return SymComplex.of(self) * o
        return self._op("*", o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        o2 = SymFloat.of(o)
        if bool(o2 == 0.0):
            raise ZeroDivisionError("float division by zero")
        return self._op("/", o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if bool(self == 0.0):
            raise ZeroDivisionError("float division by zero")
        return self._op("/", o, lambda a, b: a / b, True)

    def __neg__(self):
        if self.kind == "lit":
            return SymFloat("lit", num=-self.num, e10=self.e10)
        return self._op("*", -1.0, lambda a, b: a * b)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.kind == "lit":
            return SymFloat("lit", num=z3.If(self.num < 0, -self.num, self.num), e10=self.e10)
        r = self.real_expr()
        return SymFloat("op", key=("abs", self), r=z3.If(r < 0, -r, r))

    def __pow__(self, o):
        if type(o) is int and 1 <= o <= 4:
            out = self
            for _ in range(o - 1):
                out = out * self
            return out
        raise Unsupported("power of a symbolic float")

    def eq_expr(self, o):
        """z3 expression (or bool) for self == o."""
        o = SymFloat.of(o)
        if self.kind == "bits" and o.kind == "bits":
            return z3.And([a == b for a, b in zip(self.bits, o.bits)])
        if self.kind == "bits" or o.kind == "bits":
            raise Unsupported("comparison of raw float bits with a number")
        if self.kind == "lit" and o.kind == "lit":
            return lit_eq(self.num, self.e10, o.num, o.e10)
        if self.kind == "op" and o.kind == "op" and same_key(self.key, o.key):
            return z3.BoolVal(True)
        return self.real_expr() == o.real_expr()

    def __eq__(self, o):
        if type(o) in (SymComplex, complex):
            return SymComplex.of(self) == o
        if type(o) not in (int, float, bool, SymInt, SymFloat, SymBool, SymFrac, Fraction):
            return NotImplemented
        return mkbool(z3.simplify(self.eq_expr(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(bexpr(r))) if type(r) is SymBool else not r

    def _cmp(self, o, f):
        if type(o) is float and o in (float("inf"), float("-inf")):
            return f(0, 1 if o > 0 else -1)
        try:
            o = SymFloat.of(o)
        except Unsupported:
            return NotImplemented
        if self.kind == "lit" and o.kind == "lit" and isinstance(self.e10, int) and isinstance(o.e10, int):
            a, b = scale(self.num, self.e10, o.num, o.e10)
            return mkbool(z3.simplify(f(a, b)))
        return mkbool(z3.simplify(f(self.real_expr(), o.real_expr())))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        if self.kind == "lit":
            return core.EX.branch(self.num != 0)
        return core.EX.branch(self.real_expr() != 0)

    def __hash__(self):
        return SYMHASH

    def __float__(self):
        raise Unsupported("float() of a symbolic float from C code")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def is_integer(self):
        return self == SymFloat.of(to_int(self))

    def __trunc__(self):
        return to_int(self)

    def __repr__(self):
        return f"<symfloat {self.kind} {str(self.num)[:40]}e{self.e10}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def same_key(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_key(x, y) for x, y in zip(a, b))
    if type(a) is SymFloat and type(b) is SymFloat:
        if a.kind != b.kind:
            return False
        if a.kind == "lit":
            return (a.num.eq(b.num) and (a.e10 == b.e10 if isinstance(a.e10, int) and isinstance(b.e10, int)
                                          else not isinstance(a.e10, int) and not isinstance(b.e10, int) and a.e10.eq(b.e10)))
        if a.kind == "op":
            return same_key(a.key, b.key)
        return a.bits == b.bits
    if type(a) is type(b) and isinstance(a, (str, int, float)):
        return a == b
    return False


def scale(n1, e1, n2, e2):
    if e1 == e2:
        return n1, n2
    if e1 > e2:
        return n1 * z3.IntVal(10 ** (e1 - e2)), n2
    return n1, n2 * z3.IntVal(10 ** (e2 - e1))


def lit_eq(n1, e1, n2, e2):
    key = (n1.get_id(), e1 if isinstance(e1, int) else ("z", e1.get_id()), n2.get_id(),
           e2 if isinstance(e2, int) else ("z", e2.get_id()))
    r = _LITEQ.get(key)
    if r is None:
        if len(_LITEQ) > 50000:
            _LITEQ.clear()
        r = _LITEQ[key] = (_lit_eq(n1, e1, n2, e2), n1, e1, n2, e2)  # keeps the terms, hence the ids, alive
    return r[0]


_LITEQ = {}


def _lit_eq(n1, e1, n2, e2):
    if isinstance(e1, int) and isinstance(e2, int):
        if abs(e1 - e2) > 400:
            return z3.And(n1 == 0, n2 == 0)
        a, b = scale(n1, e1, n2, e2)
        return a == b
    z1 = e1 if not isinstance(e1, int) else z3.IntVal(e1)
    z2 = e2 if not isinstance(e2, int) else z3.IntVal(e2)
    diff = z3.simplify(z1 - z2)
    if z3.is_int_value(diff):
        d = diff.as_long()
        if abs(d) > 400:
            return z3.And(n1 == 0, n2 == 0)
        a, b = scale(n1, d, n2, 0)
        return a == b
    alts = [z3.And(n1 == 0, n2 == 0)]
    for d in range(-18, 19):
        a, b = scale(n1, d, n2, 0)
        alts.append(z3.And(diff == d, a == b))
    return z3.Or(alts)


class SymFrac:
    """fractions.Fraction stand-in: num/den * 10**e10 (den is a z3 Int or 1)."""

    __slots__ = ("num", "den", "e10")

    def __init__(self, num, den=None, e10=0):
        self.num, self.den, self.e10 = num, den, e10

    @property
    def __class__(self):
        return Fraction

    def to_float(self):
        if self.den is None:
            return SymFloat.lit(self.num, self.e10)
        r = z3.ToReal(self.num) / z3.ToReal(self.den)
        return SymFloat("op", key=("/", SymFloat.lit(self.num, 0), SymFloat.lit(self.den, 0)), r=r)

    def __eq__(self, o):
        return self.to_float() == o

    def __hash__(self):
        return SYMHASH

    def __add__(self, o):
        return self.to_float() + o

    def __mul__(self, o):
        return self.to_float() * o

    def __truediv__(self, o):
        return self.to_float() / o

    def __neg__(self):
        return SymFrac(-self.num, self.den, self.e10)

    def __float__(self):
        raise Unsupported("float() of symbolic fraction from C code")


class SymComplex:
    __slots__ = ("real", "imag")

    def __init__(self, real, imag):
        self.real, self.imag = real, imag

    @property
    def __class__(self):
        return complex

    @staticmethod
    def of(x):
        if type(x) is SymComplex:
            return x
        if type(x) is complex:
            return SymComplex(x.real, x.imag)
        return SymComplex(x if type(x) is not int else float(x), 0.0)

    def __add__(self, o):
        o = SymComplex.of(o)
        return SymComplex(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __sub__(self, o):
        o = SymComplex.of(o)
        return SymComplex(self.real - o.real, self.imag - o.imag)

    def __mul__(self, o):
        o = SymComplex.of(o)
        return SymComplex(self.real * o.real - self.imag * o.imag,
                          self.real * o.imag + self.imag * o.real)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (complex, float, int)):
            return NotImplemented
        o = SymComplex.of(o)
        r1 = self.real == o.real
        r2 = self.imag == o.imag
        return mkbool(z3.And(bexpr(r1), bexpr(r2)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(bexpr(r)))

    def __bool__(self):
        return bool(self.real != 0) or bool(self.imag != 0)

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __hash__(self):
        return SYMHASH

    def __complex__(self):
        raise Unsupported("complex() of symbolic complex from C code")


def to_int(x):
    """int(x) for a symbolic number (truncation toward zero)."""
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return mkint(iexpr(x))
    if type(x) is SymFloat:
        if x.kind == "lit":
            e = x.e10
            if not isinstance(e, int):
                e = concretize(SymInt(e))
            if e >= 0:
                return mkint(z3.simplify(x.num * 10 ** e))
            d = z3.IntVal(10 ** -e)
            return mkint(z3.simplify(z3.If(x.num >= 0, x.num / d, -((-x.num) / d))))
        r = x.real_expr()
        return mkint(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
    if type(x) is SymFrac:
        return to_int(x.to_float())
    raise Unsupported("int() of symbolic object")


# ------------------------------------------------------------------- strings
def mk(elems):
    """SymStr or plain str from an element sequence."""
    for e in elems:
        if type(e) is not str:
            break
    else:
        return "".join(elems)
    return SymStr(tuple(elems))


def elems(s):
    if type(s) is SymStr:
        return s.el
    if isinstance(s, str):
        return tuple(s)
    raise TypeError(f"expected str, got {type(s).__name__}")


def is_str(x):
    return type(x) is SymStr or isinstance(x, str)


PLACE = "\x00"


class SymStr:
    """A string of fixed length whose characters may be symbolic."""

    __slots__ = ("el", "_sm", "_shadow")

    def __init__(self, el):
        self.el = el
        self._sm = None
        self._shadow = None

    @property
    def __class__(self):
        return str

    # ---- helpers
    def symmask(self):
        """Over-approximation of the union of the symbolic chars' domains."""
        if self._sm is None:
            m = 0
            for e in self.el:
                if type(e) is not str:
                    m |= e.dom()
            self._sm = m
        return self._sm

    def shadow(self):
        if self._shadow is None:
            self._shadow = "".join([e if type(e) is str else PLACE for e in self.el])
        return self._shadow

    def norm(self):
        """Collapse chars whose domain is a single value."""
        el = tuple([e if type(e) is str else single(e) for e in self.el])
        return mk(el)

    def __len__(self):
        return len(self.el)

    def __bool__(self):
        return len(self.el) > 0

    def __iter__(self):
        for e in self.el:
            yield mk((e,))

    def __getitem__(self, k):
        if type(k) is slice:
            if any(type(x) is SymInt for x in (k.start, k.stop, k.step)):
                k = slice(*[concretize(x) for x in (k.start, k.stop, k.step)])
            return mk(self.el[k])
        return mk((self.el[concretize(k)],))

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(self.el + elems(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(elems(o) + self.el)

    def __mul__(self, n):
        return mk(self.el * concretize(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        raise Unsupported("% formatting with a symbolic format string")

    def __rmod__(self, o):
        from .models import str_mod
        return str_mod(o, self)

    def __hash__(self):
        return SYMHASH

    def eq_expr(self, o):
        oe = elems(o)
        if len(oe) != len(self.el):
            return False
        cs = []
        for a, b in zip(self.el, oe):
            r = ch_eq_expr(a, b)
            if r is False:
                return False
            if r is not True:
                cs.append(r)
        return z3.And(cs) if cs else True

    def __eq__(self, o):
        if not is_str(o):
            return NotImplemented
        oe = elems(o)
        if len(oe) != len(self.el):
            return False
        # impossible without forking?
        for a, b in zip(self.el, oe):
            if type(a) is str:
                if type(b) is str:
                    if a != b:
                        return False
                elif not b.dom() >> ord(a) & 1:
                    return False
            elif type(b) is str:
                if ord(b) > 127 or not a.dom() >> ord(b) & 1:
                    return False
            elif not a.dom() & b.dom():
                return False
        for a, b in zip(self.el, oe):
            if not ch_eq(a, b):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _cmp(self, o):
        oe = elems(o)
        for a, b in zip(self.el, oe):
            if ch_eq(a, b):
                continue
            za = a.zexpr() if type(a) is not str else z3.IntVal(ord(a))
            zb = b.zexpr() if type(b) is not str else z3.IntVal(ord(b))
            return -1 if core.EX.branch(za < zb) else 1
        return (len(self.el) > len(oe)) - (len(self.el) < len(oe))

    def __lt__(self, o):
        return self._cmp(o) < 0 if is_str(o) else NotImplemented

    def __le__(self, o):
        return self._cmp(o) <= 0 if is_str(o) else NotImplemented

    def __gt__(self, o):
        return self._cmp(o) > 0 if is_str(o) else NotImplemented

    def __ge__(self, o):
        return self._cmp(o) >= 0 if is_str(o) else NotImplemented

    def __repr__(self):
        return "<symstr " + "".join(e if type(e) is str else "?" for e in self.el) + ">"

    def __str__(self):
        raise Unsupported("str() of a symbolic string from C code")

    def __format__(self, spec):
        raise Unsupported("format() of a symbolic string from C code")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---- searching
    def _match_at(self, i, sub):
        """Does sub occur at i?  Checks impossibility before forking."""
        el = self.el
        if i + len(sub) > len(el):
            return False
        for k, b in enumerate(sub):
            a = el[i + k]
            if type(a) is str:
                if type(b) is str:
                    if a != b:
                        return False
                elif ord(a) > 127 or not b.dom() >> ord(a) & 1:
                    return False
            elif type(b) is str:
                if ord(b) > 127 or not a.dom() >> ord(b) & 1:
                    return False
            elif not a.dom() & b.dom():
                return False
        for k, b in enumerate(sub):
            if not ch_eq(el[i + k], b):
                return False
        return True

    def _fast(self, sub):
        """Can the symbolic characters take no part in an occurrence of sub?"""
        return type(sub) is str and sub and PLACE not in sub and not (
            self.symmask() & mask_of([c for c in sub if ord(c) < 128]))

    def _range(self, start, end):
        n = len(self.el)
        s, e, _ = slice(concretize(start) if start is not None else None,
                        concretize(end) if end is not None else None).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        if self._fast(sub):
            return self.shadow().find(sub, s, e)
        se = elems(sub)
        for i in range(s, e - len(se) + 1):
            if self._match_at(i, se):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        if self._fast(sub):
            return self.shadow().rfind(sub, s, e)
        se = elems(sub)
        for i in range(e - len(se), s - 1, -1):
            if self._match_at(i, se):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def count(self, sub, *a):
        s, e = self._range(a[0] if a else None, a[1] if len(a) > 1 else None)
        if self._fast(sub):
            return self.shadow().count(sub, s, e)
        se = elems(sub)
        if not se:
            return e - s + 1
        n = 0
        i = s
        while i + len(se) <= e:
            if self._match_at(i, se):
                n += 1
                i += len(se)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return any(self.startswith(x, start, end) for x in p)
        s, e = self._range(start, end)
        pe = elems(p)
        return s + len(pe) <= e and self._match_at(s, pe)

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return any(self.endswith(x, start, end) for x in p)
        s, e = self._range(start, end)
        pe = elems(p)
        return e - len(pe) >= s and self._match_at(e - len(pe), pe)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    # ---- stripping and splitting
    def _strip(self, chars, left, right):
        if chars is None:
            mask = WS
            uni = str.isspace
        else:
            if type(chars) is SymStr:
                raise Unsupported("strip with symbolic character set")
            mask = mask_of([c for c in chars if ord(c) < 128])
            uni = chars.__contains__
        i, j = 0, len(self.el)
        el = self.el

        def hit(c):
            return uni(c) if type(c) is str else ch_in(c, mask)
        if left:
            while i < j and hit(el[i]):
                i += 1
        if right:
            while j > i and hit(el[j - 1]):
                j -= 1
        return mk(el[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        out = []
        el = self.el
        n = len(el)
        if sep is None:
            i = 0
            while True:
                while i < n and (el[i].isspace() if type(el[i]) is str else ch_in(el[i], WS)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and (el[j - 1].isspace() if type(el[j - 1]) is str else ch_in(el[j - 1], WS)):
                        j -= 1
                    out.append(mk(el[i:j]))
                    break
                j = i
                while j < n and not (el[j].isspace() if type(el[j]) is str else ch_in(el[j], WS)):
                    j += 1
                out.append(mk(el[i:j]))
                i = j
            return out
        if not len(sep):
            raise ValueError("empty separator")
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(mk(el[i:j]))
            i = j + len(sep)
        out.append(mk(el[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            out = []
            s = self
            while True:
                s = s.rstrip()
                if not s:
                    break
                if len(out) >= maxsplit:
                    out.append(s)
                    break
                se = elems(s)
                j = len(se)
                while j > 0 and not (se[j - 1].isspace() if type(se[j - 1]) is str else ch_in(se[j - 1], WS)):
                    j -= 1
                out.append(mk(se[j:]))
                s = mk(se[:j])
            return out[::-1]
        out = []
        s = self
        while len(out) < maxsplit:
            j = s.rfind(sep)
            if j < 0:
                break
            out.append(s[j + len(sep):])
            s = s[:j]
        out.append(s)
        return out[::-1]

    def splitlines(self, keepends=False):
        out = []
        el = self.el
        i = st = 0
        n = len(el)
        brk = mask_of("\n\r\v\f\x1c\x1d\x1e")
        while i < n:
            if ch_in(el[i], brk):
                j = i + 1
                if ch_in(el[i], mask_of("\r")) and j < n and ch_in(el[j], mask_of("\n")):
                    j += 1
                out.append(mk(el[st:j] if keepends else el[st:i]))
                st = i = j
            else:
                i += 1
        if st < n:
            out.append(mk(el[st:]))
        return out

    def partition(self, sep):
        j = self.find(sep)
        if j < 0:
            return (self, "", "")
        return (mk(self.el[:j]), sep, mk(self.el[j + len(sep):]))

    def rpartition(self, sep):
        j = self.rfind(sep)
        if j < 0:
            return ("", "", self)
        return (mk(self.el[:j]), sep, mk(self.el[j + len(sep):]))

    def replace(self, old, new, count=-1):
        if not len(old):
            raise Unsupported("replace of empty string")
        out = []
        i = 0
        n = 0
        while count < 0 or n < count:
            j = self.find(old, i)
            if j < 0:
                break
            out.extend(self.el[i:j])
            out.extend(elems(new))
            i = j + len(old)
            n += 1
        if n == 0:
            return self
        out.extend(self.el[i:])
        return mk(out)

    def join(self, it):
        from .models import str_join
        return str_join(self, it)

    # ---- case
    def _map(self, fn, key):
        return mk([fn(e) if type(e) is str else e.mapped(fn, key) for e in self.el])

    def lower(self):
        return self._map(str.lower, "lower")

    def casefold(self):
        return self._map(str.lower, "lower")

    def upper(self):
        return self._map(str.upper, "upper")

    def swapcase(self):
        return self._map(str.swapcase, "swapcase")

    def title(self):
        out = []
        prev = False
        for e in self.el:
            if type(e) is str:
                out.append(e.lower() if prev else e.upper())
            else:
                out.append(e.mapped(str.lower, "lower") if prev else e.mapped(str.upper, "upper"))
            prev = ch_in(e, ALPHA)
        return mk(out)

    def capitalize(self):
        if not self.el:
            return ""
        return self[:1].upper() + self[1:].lower()

    # ---- predicates
    def _all(self, mask):
        return len(self.el) > 0 and all(ch_in(e, mask) for e in self.el)

    def isdigit(self):
        return self._all(DIGIT)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALNUM)

    def isspace(self):
        return self._all(WS)

    def isascii(self):
        return True

    def isupper(self):
        got = False
        for e in self.el:
            if ch_in(e, LOWER):
                return False
            if ch_in(e, UPPER):
                got = True
        return got

    def islower(self):
        got = False
        for e in self.el:
            if ch_in(e, UPPER):
                return False
            if ch_in(e, LOWER):
                got = True
        return got

    def isidentifier(self):
        if not self.el or not ch_in(self.el[0], ALPHA | mask_of("_")):
            return False
        return all(ch_in(e, WORD) for e in self.el)

    # ---- padding
    def ljust(self, w, fill=" "):
        return mk(self.el + (fill,) * max(0, concretize(w) - len(self.el)))

    def rjust(self, w, fill=" "):
        return mk((fill,) * max(0, concretize(w) - len(self.el)) + self.el)

    def center(self, w, fill=" "):
        pad = max(0, concretize(w) - len(self.el))
        left = pad // 2 + (pad & w & 1)
        return mk((fill,) * left + self.el + (fill,) * (pad - left))

    def zfill(self, w):
        pad = max(0, concretize(w) - len(self.el))
        if self.el and ch_in(self.el[0], mask_of("+-")):
            return mk(self.el[:1] + ("0",) * pad + self.el[1:])
        return mk(("0",) * pad + self.el)

    def expandtabs(self, n=8):
        raise Unsupported("expandtabs")

    def translate(self, table):
        out = []
        for e in self.el:
            if type(e) is str:
                out.extend(e.translate(table))
                continue
            # fork per affected character
            done = False
            for c in codes(e.dom()):
                t = chr(c).translate(table)
                if t != chr(c) and ch_in(e, 1 << c):
                    out.extend(t)
                    done = True
                    break
            if not done:
                out.append(e)
        return mk(out)

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytes(tuple(ord(e) if type(e) is str else e.zexpr() for e in self.el))

    def format(self, *a, **k):
        raise Unsupported("format with symbolic format string")


# --------------------------------------------------------------------- bytes
class ByteVar:
    def __init__(self, name):
        self.z = z3.Int(name)
        core.EX.add(z3.And(self.z >= 0, self.z <= 255))

    def zvar(self):
        return self.z

    def rand(self, rng):
        return rng.randint(0, 255)

    def decode(self, v):
        return v


class SymBytes:
    """Bytes of fixed length; elements are ints or z3 Int terms in 0..255."""

    __slots__ = ("el",)

    def __init__(self, el):
        self.el = tuple(el)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.el)

    def __bool__(self):
        return len(self.el) > 0

    def __iter__(self):
        for e in self.el:
            yield mkint(e)

    def __getitem__(self, k):
        if type(k) is slice:
            k = slice(*[concretize(x) for x in (k.start, k.stop, k.step)])
            return SymBytes(self.el[k])
        return mkint(self.el[concretize(k)])

    def __add__(self, o):
        return SymBytes(self.el + belems(o))

    def __radd__(self, o):
        return SymBytes(belems(o) + self.el)

    def __mul__(self, n):
        return SymBytes(self.el * concretize(n))

    __rmul__ = __mul__

    def __hash__(self):
        return SYMHASH

    def eq_expr(self, o):
        oe = belems(o)
        if len(oe) != len(self.el):
            return False
        cs = []
        for a, b in zip(self.el, oe):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
            else:
                cs.append(a == b)
        return z3.And(cs) if cs else True

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return mkbool(self.eq_expr(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(bexpr(r))) if type(r) is SymBool else not r

    def decode(self, encoding="utf-8", errors="strict"):
        return bytes_to_str(self, encoding)

    def _strip(self, chars, left, right):
        cs = chars if chars is not None else b" \t\n\r\x0b\f"

        def hit(c):
            if isinstance(c, int):
                return c in cs
            return core.EX.branch(z3.Or([c == b for b in cs]))
        i, j = 0, len(self.el)
        while left and i < j and hit(self.el[i]):
            i += 1
        while right and j > i and hit(self.el[j - 1]):
            j -= 1
        return SymBytes(self.el[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def __repr__(self):
        return f"<symbytes len={len(self.el)}>"


class ZCharVar:
    """A char backed by an existing z3 Int term (a byte)."""

    __slots__ = ("name", "dom", "z")

    def __init__(self, z, dom):
        self.z = z
        self.dom = dom
        self.name = str(z)

    def zexpr(self):
        return self.z


def belems(o):
    if type(o) is SymBytes:
        return o.el
    if isinstance(o, (bytes, bytearray, memoryview)):
        return tuple(bytes(o))
    raise TypeError("expected bytes")


def bytes_to_str(b, encoding="utf-8"):
    out = []
    for e in b.el:
        if isinstance(e, int):
            if e > 127:
                raise UnicodeDecodeError(encoding, bytes([e]), 0, 1, "ordinal not in range(128)")
            out.append(chr(e))
        else:
            if not core.EX.branch(e <= 127):
                raise UnicodeDecodeError(encoding, b"\xff", 0, 1, "ordinal not in range(128)")
            # possible printable domain is not tracked: full ASCII, linked to the byte
            out.append(Ch(ZCharVar(e, ALL)))
    return mk(out)


SYM_TYPES = (SymStr, SymInt, SymBool, SymFloat, SymFrac, SymComplex, SymBytes)
_SYMSET = frozenset(SYM_TYPES)


def is_sym(x):
    return type(x) in _SYMSET


def has_sym(x, depth=6):
    t = type(x)
    if t in _SYMSET:
        return True
    if depth == 0:
        return False
    if t in (tuple, list, set, frozenset):
        for y in x:
            if has_sym(y, depth - 1):
                return True
        return False
    if isinstance(x, dict):
        for k, v in x.items():
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
        return False
    if isinstance(x, tuple):
        return any(has_sym(y, depth - 1) for y in x)
    return False
