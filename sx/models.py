"""Call, operator and container hooks the instrumented code goes through."""
from __future__ import annotations

import builtins
import collections
import functools
import io
import itertools
import re
import struct
import types
from fractions import Fraction

import z3

from . import core, rex
from .core import Unsupported
from .values import (Ch, CharVar, DIGIT, SymBool, SymBytes, SymComplex, SymFloat, SymFrac, SymInt, SymStr, WS,
                     belems, bexpr, bytes_to_str, ch_in, concretize, elems, has_sym, is_num, is_str, is_sym,
                     mask_of, mk, mkbool, mkint, to_int, iexpr)

_FN = types.FunctionType
_BM = types.BuiltinMethodType  # also builtin functions
_BM2 = type(re.compile('a').search)  # builtin_method (defining class passed)
_MD = type(str.strip)          # method_descriptor
_WD = type(str.__add__)        # wrapper_descriptor


class SymMethodsOnly:
    pass


# ------------------------------------------------------------------ str helpers
def sx_str(x="", *a, **k):
    if a or k:
        if type(x) is SymBytes:
            return bytes_to_str(x, *(a or k.values()))
        return str(x, *a, **k)
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return "True" if x else "False"
    if t in (SymFloat, SymComplex, SymFrac, SymBytes):
        raise Unsupported(f"str() of {t.__name__}")
    if isinstance(x, (str, int, float)):
        return str(x)
    f = t.__dict__.get("__str__") if isinstance(t, type) else None
    if f is None:
        for c in getattr(t, "__mro__", ()):
            f = c.__dict__.get("__str__")
            if f is not None:
                break
    if isinstance(f, _FN):
        return f(x)
    if has_sym(x):
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if t is SymInt:
        return int_to_str(x)
    if t is SymStr:
        return mk(("'",) + x.el + ("'",))
    if t in (tuple, list) and has_sym(x):
        o, c = ("(", ")") if t is tuple else ("[", "]")
        out = o
        for i, y in enumerate(x):
            if i:
                out = out + ", "
            out = out + sx_repr(y)
        if t is tuple and len(x) == 1:
            out = out + ","
        return out + c
    if has_sym(x):
        raise Unsupported(f"repr of {t.__name__}")
    return repr(x)


def int_to_str(x):
    """Decimal text of a symbolic int: fork on sign and digit count, digits stay symbolic."""
    ex = core.EX
    neg = bool(x < 0)
    v = -x if neg else x
    n = 1
    while not bool(v < 10 ** n):
        n += 1
        if n > 20:
            raise Unsupported("str of a very large symbolic int")
    if type(v) is int:
        return ("-" if neg else "") + str(v)
    out = ["-"] if neg else []
    for i in range(n - 1, -1, -1):
        d = (v.e / (10 ** i)) % 10 if i else v.e % 10
        z = z3.Int(ex.fresh("dig"))
        ex.add(z == d + 48)
        from .values import ZCharVar
        out.append(Ch(ZCharVar(z, DIGIT)))
    return mk(out)


def str_join(sep, it):
    out = []
    se = elems(sep)
    first = True
    for i, x in enumerate(it):
        if not is_str(x):
            raise TypeError(f"sequence item {i}: expected str instance, {getattr(x, '__class__', type(x)).__name__} found")
        if not first:
            out.extend(se)
        first = False
        out.extend(elems(x))
    return mk(out)


def fmt_one(v, conv=-1, spec=""):
    if conv == 114:
        v = sx_repr(v)
    elif conv == 115:
        v = sx_str(v)
    elif conv == 97:
        v = sx_repr(v)
    if type(spec) is SymStr:
        raise Unsupported("symbolic format spec")
    t = type(v)
    if t is SymStr:
        if not spec:
            return v
        m = re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?", spec, re.S)
        if not m:
            raise ValueError(f"Unknown format code for str: {spec}")
        fill, al, w, pr = m.groups()
        if pr:
            v = v[:int(pr)]
        if w:
            f = {"<": "ljust", ">": "rjust", "^": "center"}[al or "<"]
            v = SymStr(elems(v))
            v = getattr(v, f)(int(w), fill or " ")
        return v
    if t is SymInt:
        if not spec or spec == "d":
            return int_to_str(v)
        m = re.fullmatch(r"(0)?([<>^])?(\d+)?d?", spec)
        if not m:
            raise Unsupported("int format spec " + spec)
        s = int_to_str(v)
        if m.group(3):
            w = int(m.group(3))
            s = SymStr(elems(s))
            if m.group(1):
                return s.zfill(w)
            return getattr(s, {"<": "ljust", ">": "rjust", "^": "center", None: "rjust"}[m.group(2)])(w)
        return s
    if t is SymBool:
        return fmt_one(bool(v), conv, spec)
    if is_sym(v):
        raise Unsupported(f"format of {t.__name__}")
    if not spec and has_sym(v):
        return sx_str(v)
    if not spec and not isinstance(v, (str, int, float)):
        return sx_str(v)
    return format(v, spec)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            out.append(fmt_one(v, conv, spec))
        else:
            out.append(p)
    return str_join("", out)


def str_mod(fmt, args):
    tup = args if type(args) is tuple else (args,)
    if not has_sym(tup):
        return fmt % args
    out = []
    i = 0
    k = 0
    for m in re.finditer(r"%(?:(%)|([-0 +#]*)(\d+)?(?:\.(\d+))?([sdrifg]))", fmt):
        out.append(fmt[k:m.start()])
        k = m.end()
        if m.group(1):
            out.append("%")
            continue
        v = tup[i]
        i += 1
        if not is_sym(v):
            out.append(m.group(0) % (v,))
            continue
        c = m.group(5)
        if c in "sdi":
            s = SymStr(elems(sx_str(v)))
            if m.group(3):
                s = s.ljust(int(m.group(3))) if "-" in m.group(2) else s.rjust(int(m.group(3)))
            out.append(s)
        else:
            raise Unsupported("% format " + m.group(0))
    if i != len(tup):
        raise TypeError("not all arguments converted during string formatting")
    out.append(fmt[k:])
    return str_join("", out)


def str_format(fmt, *a, **k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            v, _ = string.Formatter().get_field(field, a, k)
        out.append(fmt_one(v, ord(conv) if conv else -1, spec))
    return str_join("", out)


# ------------------------------------------------------------------ numbers
INT_RE = re.compile(r"\s*([+-]?)(\d+(?:_\d+)*)\s*\Z")
FLOAT_RE = re.compile(r"\s*([+-]?)(?:(\d+)(?:\.(\d*))?|\.(\d+))(?:[eE]([+-]?)(\d+))?\s*\Z")
SPECIAL_RE = re.compile(r"\s*[+-]?(inf|infinity|nan)\s*\Z", re.I)
FRAC_RE = re.compile(r"\s*([+-]?)(?=\d|\.\d)(\d*)(?:/(\d+)|(?:\.(\d*))?(?:[eE]([+-]?)(\d+))?)\s*\Z")


def digits_expr(s):
    """z3 term (or int) for a string of decimal digits (underscores skipped)."""
    if type(s) is not SymStr:
        return int(s) if s else 0
    acc = 0
    terms = []
    ds = [e for e in s.el if e != "_"]
    n = len(ds)
    for i, e in enumerate(ds):
        p = 10 ** (n - 1 - i)
        if type(e) is str:
            acc += p * int(e)
        else:
            terms.append((e.zexpr() - 48) * p)
    return z3.Sum(terms) + acc if len(terms) > 1 or acc else terms[0]


def signed(sign, m):
    if not sign or (type(sign) is str and sign == "+"):
        return m
    if type(sign) is str:
        return -m
    ch = sign.el[0]
    d = ch.dom()
    if not d & mask_of("-"):
        return m
    if not d & mask_of("+"):
        return -m
    m = z3.IntVal(m) if isinstance(m, int) else m
    return z3.If(ch.zexpr() == ord("-"), -m, m)


def _lit(sign, ip, fp, esign, ex_):
    """(num, e10) of a decimal literal."""
    ip = ip or ""
    fp = fp or ""
    key = []
    for part in (sign, ip, fp, esign, ex_):
        key.append(",")
        for e in elems(part) if part else ():
            if type(e) is Ch:
                if e.tab is not None or type(e.var) is not CharVar:
                    return _lit_build(sign, ip, fp, esign, ex_)
                e.var.zexpr()
                key.append((e.var.name, e.var.dom))
            else:
                key.append(e)
    key = tuple(key)
    r = _LITS.get(key)
    if r is None:
        if len(_LITS) > 50000:
            _LITS.clear()
        r = _LITS[key] = _lit_build(sign, ip, fp, esign, ex_)
    return r


_LITS = {}


def _lit_build(sign, ip, fp, esign, ex_):
    # trailing concrete structure
    s = mk(elems(ip) + elems(fp))
    num = signed(sign, digits_expr(s) if len(s) else 0)
    e10 = -len(fp)
    if ex_:
        ee = signed(esign, digits_expr(ex_))
        if isinstance(ee, int):
            e10 = e10 + ee
        else:
            e10 = z3.simplify(ee + e10)
    if isinstance(num, int):
        num = z3.IntVal(num)
    return num, e10


def sx_int(x=0, *a, **k):
    t = type(x)
    if t is SymStr:
        if a or k:
            raise Unsupported("int with base")
        m = rex.p_match(INT_RE, x)
        if m is None:
            raise ValueError("invalid literal for int() with base 10: <symbolic>")
        return mkint(signed(m.group(1), digits_expr(m.group(2))))
    if t in (SymInt, SymBool, SymFloat, SymFrac):
        return to_int(x)
    return int(x, *a, **k)


def sx_float(x=0.0):
    t = type(x)
    if t is SymStr:
        m = rex.p_match(FLOAT_RE, x)
        if m is None:
            if rex.p_match(SPECIAL_RE, x) is not None:
                raise Unsupported("inf/nan literal")
            raise ValueError("could not convert string to float: <symbolic>")
        sg, ip, fp, fp2, es, e = m.groups()
        return SymFloat.lit(*_lit(sg, ip, fp if ip is not None else fp2, es, e))
    if t is SymFloat:
        return x
    if t in (SymInt, SymBool):
        return SymFloat.of(x)
    if t is SymFrac:
        return x.to_float()
    return float(x)


def sx_fraction(n=0, d=None, **k):
    if type(n) is SymStr and d is None:
        m = rex.p_match(FRAC_RE, n)
        if m is None:
            raise ValueError("Invalid literal for Fraction: <symbolic>")
        sg, ip, den, fp, es, e = m.groups()
        if den is not None:
            num = signed(sg, digits_expr(ip))
            dd = digits_expr(den)
            if isinstance(dd, int):
                if dd == 0:
                    raise ZeroDivisionError("Fraction(%s, 0)")
                dd = z3.IntVal(dd)
            elif not core.EX.branch(dd != 0):
                raise ZeroDivisionError("Fraction(<sym>, 0)")
            return SymFrac(num if not isinstance(num, int) else z3.IntVal(num), dd)
        num, e10 = _lit(sg, ip, fp, es, e)
        return SymFrac(num, None, e10)
    if type(n) is SymFloat and d is None:
        return SymFrac(n.num, None, n.e10)
    if is_num(n) and (d is None or is_num(d)) and has_sym((n, d)):
        if d is not None and not (core.EX.branch(iexpr(d) != 0) if type(d) is SymInt else d):
            raise ZeroDivisionError("Fraction(<sym>, 0)")
        return SymFrac(iexpr(n), None if d is None else iexpr(d))
    if has_sym((n, d)):
        raise Unsupported("Fraction of symbolic numbers")
    return Fraction(n, d, **k) if d is not None else Fraction(n, **k)


def sx_complex(re_=0, im=None):
    if type(re_) is SymStr:
        raise Unsupported("complex() of symbolic text")
    if has_sym((re_, im)):
        r = SymComplex.of(re_ if not isinstance(re_, int) or is_sym(re_) else float(re_))
        if im is None:
            return r
        if type(re_) in (complex, SymComplex) or type(im) in (complex, SymComplex):
            return r + SymComplex.of(im) * SymComplex.of(1j)
        return SymComplex(sx_float(re_), sx_float(im))
    return complex(re_) if im is None else complex(re_, im)


def sx_bool(x=False):
    return bool(x)


def sx_round(x, n=None):
    if type(x) is SymInt:
        return x
    if is_sym(x):
        if type(x) is SymFloat and x.kind == "lit" and isinstance(x.e10, int) and n is not None:
            # round to n decimals (half-even on the decimal literal)
            drop = -x.e10 - n
            if drop <= 0:
                return x
            p = 10 ** drop
            q = x.num / p
            r = x.num % p
            up = z3.Or(2 * r > p, z3.And(2 * r == p, q % 2 == 1))
            return SymFloat.lit(z3.If(up, q + 1, q), -n)
        raise Unsupported("round of symbolic float")
    return round(x, n) if n is not None else round(x)


def sx_abs(x):
    return abs(x)


def sx_type(x, *a):
    if a:
        return type(x, *a)
    if is_sym(x):
        return x.__class__
    return type(x)


def sx_len(x):
    return len(x)


def sx_range(*a):
    return range(*[concretize(x) for x in a])


def sx_ord(c):
    if type(c) is SymStr:
        e = c.el[0]
        return mkint(e.zexpr()) if type(e) is not str else ord(e)
    return ord(c)


def sx_chr(x):
    return chr(concretize(x))


def sx_divmod(a, b):
    if has_sym((a, b)):
        return a // b, a % b
    return divmod(a, b)


def sx_hash(x):
    return hash(x)


# ------------------------------------------------------------------ iteration
def sx_map(f, *its):
    if f is None:
        raise TypeError("'NoneType' object is not callable")

    def gen():
        for args in zip(*its):
            yield sx_call(f, *args)
    return gen()


def sx_filter(f, it):
    def gen():
        for x in it:
            if (x if f is None else sx_call(f, x)):
                yield x
    return gen()


def sx_filterfalse(f, it):
    def gen():
        for x in it:
            if not (x if f is None else sx_call(f, x)):
                yield x
    return gen()


def sx_takewhile(f, it):
    def gen():
        for x in it:
            if not sx_call(f, x):
                return
            yield x
    return gen()


def sx_dropwhile(f, it):
    def gen():
        i = iter(it)
        for x in i:
            if not sx_call(f, x):
                yield x
                break
        yield from i
    return gen()


def sx_starmap(f, it):
    def gen():
        for x in it:
            yield sx_call(f, *x)
    return gen()


def sx_groupby(it, key=None):
    if key is None:
        return itertools.groupby(it)
    return itertools.groupby(it, key=lambda x: sx_call(key, x))


def _cmpkey(a, b):
    return -1 if bool(a < b) else 1 if bool(b < a) else 0


def sx_sorted(it, *, key=None, reverse=False):
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=lambda x: sx_call(key, x), reverse=reverse)


def _minmax(fn):
    def model(*a, key=None, **k):
        if key is not None:
            k["key"] = lambda x: sx_call(key, x)
        return fn(*a, **k)
    return model


def sx_reduce(f, it, *init):
    return functools.reduce(lambda a, b: sx_call(f, a, b), it, *init)


def sx_iter(x, *a):
    if a:
        def gen():
            while True:
                v = sx_call(x)
                if v == a[0]:
                    return
                yield v
        return gen()
    return iter(x)


def sx_sum(it, start=0):
    it = list(it)
    if not has_sym(it) and not is_sym(start):
        return sum(it, start)
    for x in it:
        start = start + x
    return start


def sx_zip(*a, strict=False):
    return zip(*a, strict=strict)


# ------------------------------------------------------------------ dict and set
def _symkeys(d):
    ex = core.EX
    return ex is not None and id(d) in ex.symdicts


def _mark(d):
    core.EX.symdicts[id(d)] = d


_MISS = object()


def key_of(d, k):
    """The key of d equal to k (deciding symbolic equalities), or _MISS."""
    if not has_sym(k) and not _symkeys(d):
        return k if k in d else _MISS
    for x in d:
        if x is k:
            return x
        r = x == k
        if r is NotImplemented:
            continue
        if r:
            return x
    return _MISS


def _hooked(d, k):
    return has_sym(k) or _symkeys(d)


def _normkey(k):
    if type(k) is SymStr:
        return k.norm()
    if type(k) is tuple:
        return tuple(_normkey(x) for x in k)
    return k


def d_get(d, k):
    k = _normkey(k)
    if not _hooked(d, k):
        return d[k]
    x = key_of(d, k)
    if x is _MISS:
        if hasattr(type(d), "__missing__") and type(d) is not collections.Counter:
            if isinstance(d, collections.defaultdict):
                if d.default_factory is None:
                    raise KeyError(k)
                v = sx_call(d.default_factory)
                d_set(d, k, v)
                return v
            return type(d).__missing__(d, k)
        if type(d) is collections.Counter:
            return 0
        raise KeyError("<symbolic key>")
    return dict.__getitem__(d, x)


def d_set(d, k, v):
    k = _normkey(k)
    if not _hooked(d, k):
        d[k] = v
        return
    x = key_of(d, k)
    if x is _MISS:
        if has_sym(k):
            _mark(d)
        dict.__setitem__(d, k, v)
    else:
        dict.__setitem__(d, x, v)


def d_del(d, k):
    k = _normkey(k)
    if not _hooked(d, k):
        del d[k]
        return
    x = key_of(d, k)
    if x is _MISS:
        raise KeyError("<symbolic key>")
    dict.__delitem__(d, x)


def _native(d):
    t = type(d)
    return t in (dict, collections.defaultdict, collections.OrderedDict, collections.Counter) or (
        isinstance(d, dict) and t.__getitem__ in (dict.__getitem__, ))


def sx_getitem(a, k):
    if isinstance(a, dict) and type(a) not in _SYM and _native(a):
        return d_get(a, k)
    t = type(a)
    if t in (list, tuple, str, bytes, range):
        if type(k) is SymInt:
            n = len(a)
            # keep out-of-range outcomes: they raise
            k = concretize(k)
        elif type(k) is slice:
            k = slice(concretize(k.start), concretize(k.stop), concretize(k.step))
        return a[k]
    if isinstance(a, types.MappingProxyType) and has_sym(k):
        for x in a:
            if x == k:
                return a[x]
        raise KeyError("<symbolic key>")
    if isinstance(a, type) and issubclass(a, __import__("enum").Enum) and type(k) is SymStr:
        return a[resolve_concrete(k, [m for m in a.__members__])]
    return a[k]


def resolve_concrete(k, options):
    for o in options:
        if k == o:
            return o
    raise KeyError("<symbolic key>")


class Box:
    """Assignment target wrapper for a dict."""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return d_get(self.d, k)

    def __setitem__(self, k, v):
        d_set(self.d, k, v)

    def __delitem__(self, k):
        d_del(self.d, k)


def sx_box(a):
    if isinstance(a, dict) and type(a) not in _SYM and _native(a):
        return Box(a)
    return a


_VIEWS = (type({}.keys()), )


def sx_contains(container, item):
    t = type(container)
    if t is SymStr:
        if not is_str(item):
            raise TypeError(f"'in <string>' requires string as left operand, not {type(item).__name__}")
        return item in container
    if isinstance(container, str):
        if type(item) is SymStr:
            if len(item) > len(container):
                return False
            if len(item) == 1:
                return ch_in(item.el[0], mask_of([c for c in container if ord(c) < 128]))
            return SymStr(tuple(container)).find(item) >= 0
        return item in container
    if t in (set, frozenset) or t in _VIEWS or (isinstance(container, dict) and _native(container)):
        item = _normkey(item)
        if has_sym(item) or _symkeys(container) or (t in _VIEWS and has_sym(list(container))):
            for x in container:
                if x is item:
                    return True
                r = x == item
                if r is not NotImplemented and r:
                    return True
            return False
        return item in container
    if t in (list, tuple):
        for x in container:
            if x is item or bool(x == item):
                return True
        return False
    if t is range and type(item) is SymInt:
        if container.step == 1:
            return mkbool(z3.And(item.e >= container.start, item.e < container.stop))
        if container.step > 0:
            return mkbool(z3.And(item.e >= container.start, item.e < container.stop,
                                 (item.e - container.start) % container.step == 0))
        raise Unsupported("symbolic in negative range")
    if isinstance(container, types.MappingProxyType) and has_sym(item):
        return any(bool(x == item) for x in container)
    if isinstance(container, type) and has_sym(item):
        return any(bool(x == item) for x in container)
    return item in container


def sx_notin(container, item):
    return not sx_contains(container, item)


def sx_mkdict(pairs):
    d = {}
    for k, v in pairs:
        d_set(d, k, v)
    return d


SPREAD = object()


def sx_dictdisp(*pairs):
    d = {}
    for k, v in pairs:
        if k is SPREAD:
            if hasattr(v, "keys"):
                for kk in v.keys():
                    d_set(d, kk, sx_getitem(v, kk))
            else:
                raise TypeError(f"'{type(v).__name__}' object is not a mapping")
        else:
            d_set(d, k, v)
    return d


def sx_mkset(items):
    s = set()
    for x in items:
        s_add(s, x)
    return s


def s_add(s, x):
    x = _normkey(x)
    if not has_sym(x) and not _symkeys(s):
        s.add(x)
        return
    for y in s:
        if y is x or bool(y == x):
            return
    if has_sym(x):
        _mark(s)
    s.add(x)


def sx_dict(*a, **k):
    d = {}
    if a:
        d_update(d, a[0])
    for kk, v in k.items():
        d_set(d, kk, v)
    return d


def d_update(d, *a, **k):
    if a:
        o = a[0]
        if hasattr(o, "keys"):
            for kk in list(o.keys()):
                d_set(d, kk, sx_getitem(o, kk))
        else:
            for kk, v in o:
                d_set(d, kk, v)
    for kk, v in k.items():
        d_set(d, kk, v)


def d_pop(d, k, *default):
    k = _normkey(k)
    x = key_of(d, k)
    if x is _MISS:
        if default:
            return default[0]
        raise KeyError("<symbolic key>" if has_sym(k) else k)
    return dict.pop(d, x)


def d_getm(d, k, default=None):
    x = key_of(d, _normkey(k))
    return default if x is _MISS else dict.__getitem__(d, x)


def d_setdefault(d, k, default=None):
    k = _normkey(k)
    x = key_of(d, k)
    if x is _MISS:
        d_set(d, k, default)
        return default
    return dict.__getitem__(d, x)


def d_copy(d):
    r = type(d).copy(d)
    if _symkeys(d):
        _mark(r)
    return r


DICT_METHODS = dict(get=d_getm, pop=d_pop, setdefault=d_setdefault, update=d_update, copy=d_copy,
                    __getitem__=d_get, __setitem__=d_set, __delitem__=d_del,
                    __contains__=lambda d, k: key_of(d, _normkey(k)) is not _MISS)


def s_discard(s, x):
    x = _normkey(x)
    for y in list(s):
        if y is x or bool(y == x):
            s.discard(y)
            return


def s_remove(s, x):
    n = len(s)
    s_discard(s, x)
    if len(s) == n:
        raise KeyError("<symbolic>")


def s_update(s, *its):
    for it in its:
        for x in it:
            s_add(s, x)


SET_METHODS = dict(add=s_add, discard=s_discard, remove=s_remove, update=s_update,
                   __contains__=lambda s, x: sx_contains(s, x))


def _setlike(x):
    return type(x) in (set, frozenset) or type(x) in _VIEWS


def sx_binop(op, a, b):
    """-, &, |, ^ on set-likes holding symbolic members; and % on str."""
    if op == "%":
        if isinstance(a, str):
            return str_mod(a, b) if type(a) is not SymStr else a % b
        return a % b
    if _setlike(a) and (_symin(a) or _symin(b)):
        la, lb = list(a), list(b)
        if op == "-":
            return sx_mkset([x for x in la if not _inlist(x, lb)])
        if op == "&":
            return sx_mkset([x for x in la if _inlist(x, lb)])
        if op == "|":
            return sx_mkset(la + lb)
        return sx_mkset([x for x in la if not _inlist(x, lb)] + [x for x in lb if not _inlist(x, la)])
    if op == "|" and isinstance(a, dict) and isinstance(b, dict) and (_symkeys(a) or _symkeys(b)):
        d = sx_dict(a)
        d_update(d, b)
        return d
    if op == "-":
        return a - b
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    return a ^ b


def _inlist(x, xs):
    return any(y is x or bool(y == x) for y in xs)


def _symin(s):
    try:
        return any(has_sym(x) for x in s)
    except TypeError:
        return False


def sx_defaultdict(*a, **k):
    if len(a) > 1 or k:
        d = collections.defaultdict(a[0] if a else None)
        d_update(d, *(a[1:]), **k)
        return d
    return collections.defaultdict(*a)


def sx_ordereddict(*a, **k):
    d = collections.OrderedDict()
    d_update(d, *a, **k)
    return d


def sx_counter(*a, **k):
    d = collections.Counter()
    for x in (a[0] if a else ()):
        d_set(d, x, d_getm(d, x, 0) + 1)
    return d


def sx_fromkeys(ks, v=None):
    d = {}
    for k in ks:
        d_set(d, k, v)
    return d


def sx_set(it=()):
    return sx_mkset(it)


def sx_frozenset(it=()):
    it = list(it)
    if has_sym(it):
        s = sx_mkset(it)
        f = frozenset(s)
        _mark(f)
        return f
    return frozenset(it)


# ------------------------------------------------------------------ struct
def sx_unpack(fmt, data):
    if type(data) is not SymBytes:
        return struct.unpack(fmt, data)
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    size = struct.calcsize(fmt)
    if size != len(data):
        raise struct.error(f"unpack requires a buffer of {size} bytes")
    order = "big"
    f = fmt
    if f[:1] in "<>=!@":
        order = "little" if f[0] in "<=@" else "big"
        f = f[1:]
    out = []
    el = data.el
    i = 0
    for cnt, c in re.findall(r"(\d*)\s*([xcbB?hHiIlLqQfdsp])", f):
        if c == "s":
            n = int(cnt or 1)
            out.append(SymBytes(el[i:i + n]))
            i += n
            continue
        n = int(cnt) if cnt else 1
        sz = struct.calcsize(">" + c)
        for _ in range(n):
            bs = el[i:i + sz]
            i += sz
            if c == "x":
                continue
            if order == "little":
                bs = bs[::-1]
            if c in "df":
                if all(isinstance(b, int) for b in bs):
                    out.append(struct.unpack(">" + c, bytes(bs))[0])
                else:
                    out.append(SymFloat("bits", bits=tuple(b if not isinstance(b, int) else z3.IntVal(b) for b in bs)))
                continue
            v = bytes_int(bs, c in "bhilq")
            out.append(bool_of(v) if c == "?" else v)
    return tuple(out)


def bool_of(v):
    return mkbool(v.e != 0) if type(v) is SymInt else bool(v)


BE32 = {}


def bytes_int(bs, sgn):
    n = len(bs)
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), "big", signed=sgn)
    if n == 4 and not any(isinstance(b, int) for b in bs):
        known = BE32.get(tuple(b.get_id() for b in bs))
        if known is not None:
            # these four bytes were introduced as the digits of a known integer
            v = known[0]
            return SymInt(z3.If(v >= 2 ** 31, v - 2 ** 32, v) if sgn else v)
    v = z3.Sum([b * z3.IntVal(256 ** (n - 1 - k)) if not isinstance(b, int) else z3.IntVal(b * 256 ** (n - 1 - k))
                for k, b in enumerate(bs)])
    if sgn:
        v = z3.If(v >= 2 ** (8 * n - 1), v - 2 ** (8 * n), v)
    return mkint(z3.simplify(v)) if n == 1 else SymInt(v)


def sx_from_bytes(data, byteorder="big", *, signed=False):
    if hasattr(data, "sx_from_bytes"):
        return data.sx_from_bytes(byteorder, signed)
    if type(data) is not SymBytes:
        return int.from_bytes(data, byteorder, signed=signed)
    el = data.el if byteorder == "big" else data.el[::-1]
    return bytes_int(el, signed)


def sx_bytes(x=b"", *a, **k):
    if type(x) is SymBytes:
        return x
    if isinstance(x, (list, tuple)) and has_sym(x):
        return SymBytes([y.e if type(y) is SymInt else y for y in x])
    if type(x) is SymStr:
        return x.encode()
    return bytes(x, *a, **k)


# ------------------------------------------------------------------ files
class SymTextFile:
    """A read-only text stream whose content may be symbolic (emulates a real text file)."""

    def __init__(self, content, name=None, emulate_file=True):
        if type(content) is str or type(content) is SymStr:
            content = [content]
        buf = []
        for c in content:
            buf.extend(elems(c))
        self.lines = []
        st = 0
        for i, e in enumerate(buf):
            if ch_in(e, mask_of("\n")):
                self.lines.append(mk(buf[st:i + 1]))
                st = i + 1
        if st < len(buf):
            self.lines.append(mk(buf[st:]))
        self.offs = [0]
        for ln in self.lines:
            self.offs.append(self.offs[-1] + len(ln))
        self.i = 0
        self.col = 0
        self.closed = False
        self.nexted = False
        self.real = emulate_file
        if name is not None:
            self.name = name

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _line(self):
        if self.i >= len(self.lines):
            return ""
        ln = self.lines[self.i]
        if self.col:
            ln = ln[self.col:]
        self.i += 1
        self.col = 0
        return ln

    def readline(self, size=-1):
        self._chk()
        core.EX.tick(1)
        return self._line()

    def __iter__(self):
        self._chk()
        return self

    def __next__(self):
        self._chk()
        core.EX.tick(1)
        ln = self._line()
        if not ln:
            self.nexted = False
            raise StopIteration
        self.nexted = True
        return ln

    def tell(self):
        self._chk()
        core.EX.tick(1)
        if self.nexted and self.real:
            raise OSError("telling position disabled by next() call")
        return self.offs[self.i] + self.col

    def seek(self, pos, whence=0):
        self._chk()
        if whence == 2:
            if pos:
                raise OSError("can't do nonzero end-relative seeks")
            pos = self.offs[-1]
        elif whence == 1:
            if pos:
                raise OSError("can't do nonzero cur-relative seeks")
            pos = self.offs[self.i] + self.col
        pos = concretize(pos)
        if pos < 0:
            raise ValueError("negative seek position")
        self.nexted = False
        import bisect
        j = bisect.bisect_right(self.offs, pos) - 1
        if j >= len(self.lines):
            self.i, self.col = len(self.lines), 0
        else:
            self.i, self.col = j, pos - self.offs[j]
        return pos

    def read(self, n=-1):
        self._chk()
        if n is None or n < 0:
            out = []
            while True:
                ln = self._line()
                if not ln:
                    break
                out.append(ln)
            return str_join("", out)
        out = []
        while n > 0 and self.i < len(self.lines):
            ln = self.lines[self.i][self.col:]
            take = ln[:n]
            out.append(take)
            n -= len(take)
            self.col += len(take)
            if self.col >= len(self.lines[self.i]):
                self.i += 1
                self.col = 0
        return str_join("", out)

    def readlines(self, hint=-1):
        return list(self)

    def getvalue(self):
        return str_join("", self.lines)

    def readable(self):
        return True

    def seekable(self):
        return True

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        pass


class SymStringIO(SymTextFile):
    def __init__(self, content=""):
        super().__init__(content, emulate_file=False)

    @property
    def __class__(self):
        return io.StringIO


def sx_stringio(content="", *a, **k):
    if type(content) is SymStr:
        return SymStringIO(content)
    return io.StringIO(content, *a, **k)


# ------------------------------------------------------------------ re module
def _re_fn(name):
    pf = rex.PATTERN_METHODS[name]
    if name in ("sub", "subn"):
        def model(pattern, repl, string, count=0, flags=0):
            pat = rex.compile_(pattern, flags)
            if type(string) is SymStr or callable(repl) or type(repl) is SymStr:
                return pf(pat, repl, string, count)
            return getattr(pat, name)(repl, string, count)
    elif name == "split":
        def model(pattern, string, maxsplit=0, flags=0):
            pat = rex.compile_(pattern, flags)
            if type(string) is SymStr:
                return pf(pat, string, maxsplit)
            return pat.split(string, maxsplit)
    else:
        def model(pattern, string, flags=0):
            pat = rex.compile_(pattern, flags)
            if type(string) is SymStr:
                return pf(pat, string)
            return getattr(pat, name)(string)
    return model


def _re_compile(pattern, flags=0):
    return rex.compile_(pattern, flags)


def _re_escape(s):
    if type(s) is SymStr:
        raise Unsupported("re.escape of symbolic text")
    return re.escape(s)


MODELS = {
    str: sx_str, int: sx_int, float: sx_float, complex: sx_complex, Fraction: sx_fraction,
    repr: sx_repr, type: sx_type, range: sx_range, map: sx_map, filter: sx_filter,
    itertools.filterfalse: sx_filterfalse, itertools.takewhile: sx_takewhile,
    itertools.dropwhile: sx_dropwhile, itertools.starmap: sx_starmap, itertools.groupby: sx_groupby,
    sorted: sx_sorted, min: _minmax(min), max: _minmax(max), functools.reduce: sx_reduce, iter: sx_iter,
    sum: sx_sum, round: sx_round, ord: sx_ord, chr: sx_chr, divmod: sx_divmod,
    dict: sx_dict, set: sx_set, frozenset: sx_frozenset, collections.defaultdict: sx_defaultdict,
    collections.OrderedDict: sx_ordereddict, collections.Counter: sx_counter,
    dict.fromkeys: sx_fromkeys, struct.unpack: sx_unpack, int.from_bytes: sx_from_bytes, bytes: sx_bytes,
    io.StringIO: sx_stringio, format: lambda v, spec="": fmt_one(v, -1, spec),
    re.search: _re_fn("search"), re.match: _re_fn("match"), re.fullmatch: _re_fn("fullmatch"),
    re.findall: _re_fn("findall"), re.finditer: _re_fn("finditer"), re.split: _re_fn("split"),
    re.sub: _re_fn("sub"), re.subn: _re_fn("subn"), re.compile: _re_compile, re.escape: _re_escape,
}
# models that only matter when an argument is symbolic; others always apply (callbacks, lazy iterables)
ALWAYS = {map, filter, itertools.filterfalse, itertools.takewhile, itertools.dropwhile, itertools.starmap,
          itertools.groupby, sorted, min, max, functools.reduce, iter, sum, dict, set, frozenset,
          collections.defaultdict, collections.OrderedDict, collections.Counter, dict.fromkeys,
          re.sub, re.subn, str, repr}
_SYM = (SymStr, SymInt, SymBool, SymFloat, SymFrac, SymComplex, SymBytes)
_symset = frozenset(_SYM)
USER_MODELS = {}   # callable -> model, installed by harnesses (environment stubs)
USER_METHODS = []  # predicates (self, name) -> model or None


def _any_sym(args, kwargs):
    for a in args:
        t = type(a)
        if t in _symset:
            return True
        if (t is tuple or t is list) and has_sym(a):
            return True
    for a in kwargs.values():
        if has_sym(a):
            return True
    return False


def sx_call(f, *args, **kwargs):
    t = type(f)
    ex = core.EX
    if ex is not None:
        ex.ops += 1
        if ex.ops > ex.op_limit:
            raise core.LimitHit("operations")
        if not ex.ops & 0xfff:
            ex.tick(1)
    if t is _FN:
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kwargs) if (f in ALWAYS or _any_sym(args, kwargs)) else f(*args, **kwargs)
        if USER_MODELS:
            m = USER_MODELS.get(f)
            if m is not None:
                return m(*args, **kwargs)
        return f(*args, **kwargs)
    if t is types.MethodType:
        if USER_MODELS:
            m = USER_MODELS.get(f.__func__)
            if m is not None:
                return m(f.__self__, *args, **kwargs)
        return f(*args, **kwargs)
    if t is _BM or t is _BM2:
        s = f.__self__
        if type(s) is types.ModuleType or s is None:
            m = MODELS.get(f)
            if m is not None and (f in ALWAYS or _any_sym(args, kwargs)):
                return m(*args, **kwargs)
            m = USER_MODELS.get(f)
            if m is not None:
                return m(*args, **kwargs)
            return f(*args, **kwargs)
        return _bound(f, s, f.__name__, args, kwargs)
    if t is type:
        m = MODELS.get(f)
        if m is not None and (f in ALWAYS or _any_sym(args, kwargs)):
            return m(*args, **kwargs)
        m = USER_MODELS.get(f)
        if m is not None:
            return m(*args, **kwargs)
        return f(*args, **kwargs)
    if t is functools.partial:
        kw = dict(f.keywords)
        kw.update(kwargs)
        return sx_call(f.func, *f.args, *args, **kw)
    if t is _MD or t is _WD:
        if args:
            s = args[0]
            if type(s) in _symset:
                return sx_call(getattr(s, f.__name__), *args[1:], **kwargs)
            return _bound(getattr(s, f.__name__), s, f.__name__, args[1:], kwargs)
        return f(*args, **kwargs)
    m = None
    try:
        m = MODELS.get(f) or USER_MODELS.get(f)
    except TypeError:
        pass
    if m is not None:
        if f in ALWAYS or f in USER_MODELS or _any_sym(args, kwargs):
            return m(*args, **kwargs)
    return f(*args, **kwargs)


def _bound(f, s, name, args, kwargs):
    """Bound method of a builtin object."""
    ts = type(s)
    if ts is str:
        if name == "join":
            it = list(args[0])
            if any(type(x) is SymStr for x in it):
                return str_join(s, it)
            return s.join(it)
        if name == "format":
            return str_format(s, *args, **kwargs)
        if _any_sym(args, kwargs):
            return getattr(SymStr(tuple(s)), name)(*args, **kwargs)
        return f(*args, **kwargs)
    if ts is re.Pattern:
        si = 1 if name in ("sub", "subn") else 0
        strv = args[si] if len(args) > si else kwargs.get("string")
        if type(strv) is SymStr or (si and callable(args[0])):
            return rex.PATTERN_METHODS[name](s, *args, **kwargs)
        return f(*args, **kwargs)
    if isinstance(s, dict) and ts not in _symset:
        m = DICT_METHODS.get(name)
        if m is not None and _native(s):
            if name == "update" or name == "copy" or (args and _hooked(s, args[0])):
                return m(s, *args, **kwargs)
        return f(*args, **kwargs)
    if ts is set:
        m = SET_METHODS.get(name)
        if m is not None:
            return m(s, *args, **kwargs)
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            op = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[name]
            out = s
            for o in args:
                out = sx_binop(op, set_of(out), set_of(o))
            return out
        return f(*args, **kwargs)
    if ts is list:
        if name == "sort" and kwargs.get("key"):
            key = kwargs["key"]
            kwargs = dict(kwargs, key=lambda x: sx_call(key, x))
            return f(*args, **kwargs)
        return f(*args, **kwargs)
    if isinstance(s, type):
        # classmethods: dict.fromkeys, int.from_bytes, ...
        if s is dict and name == "fromkeys":
            return sx_fromkeys(*args)
        if s is int and name == "from_bytes":
            return sx_from_bytes(*args, **kwargs)
        m = USER_MODELS.get(f)
        if m is not None:
            return m(*args, **kwargs)
        return f(*args, **kwargs)
    m = USER_MODELS.get(f) if USER_MODELS and _hashable(f) else None
    if m is not None:
        return m(*args, **kwargs)
    return f(*args, **kwargs)


def _hashable(f):
    try:
        hash(f)
    except TypeError:
        return False
    return True


def set_of(x):
    if type(x) in (set, frozenset) or type(x) in _VIEWS:
        return x
    return sx_mkset(x)


def sx_len(x):
    f = getattr(type(x), "sx_len", None)
    return len(x) if f is None else f(x)


def sx_enter(name):
    ex = core.EX
    if ex is not None:
        ex.functions.add(name)


HOOKS = {f"__sx_{k}__": v for k, v in dict(
    call=sx_call, getitem=sx_getitem, box=sx_box, contains=sx_contains, notin=sx_notin, fstr=sx_fstr,
    mkdict=sx_mkdict, mkset=sx_mkset, dictdisp=sx_dictdisp, SPREAD=SPREAD, binop=sx_binop,
    enter=sx_enter, slice=slice, len=sx_len).items()}
