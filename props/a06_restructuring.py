"""A06: restructuring helpers keep every value."""
from collections import defaultdict

from castep_outputs.utilities.utility import (
    add_aliases,
    flatten_dict,
    get_only,
    json_safe,
    normalise,
    stack_dict,
    strip_nones,
)

BOUNDS = ("every nesting of dictionaries, default dictionaries, lists and tuples up to depth 3 and width 2 with at most 3 "
          "leaves (thorough 4), leaves symbolic integers, logicals and text or None, complex and real constants; string, tuple and nested-tuple "
          "keys; symbolic presence of every entry of 4-key mappings for stripping and aliasing")
OUTSIDE = "empty text keys; aliases whose target is itself aliased; keys mixing tuples with plain members"
ASSUMPTIONS = []


class Leaf:
    """Remembers what was handed out."""


def leaf(S, i):
    k = S.choice("int", "str", "const") if i < 2 else ("int", "str", "const")[i % 3]
    if k == "int":
        return S.int(-1000, 1000)
    if k == "str":
        return S.chars(2, "print")
    return (None, 1.5, complex(1.0, -2.0), True)[i % 4]


class Gen:
    def __init__(self, S, cap):
        self.S = S
        self.n = 0
        self.cap = cap

    def make(self, depth, keys=("a", "b2")):
        S = self.S
        kinds = ["leaf"]
        if depth and self.n < self.cap:
            kinds += ["dict", "list", "tuple"]
        k = S.choice(*kinds)
        if k == "leaf":
            self.n += 1
            return leaf(S, self.n)
        w = S.choice(0, 1, 2) if depth < 3 else 2
        if k == "dict":
            d = defaultdict(list) if depth == 2 else {}
            for key in keys[:w]:
                d[key] = self.make(depth - 1, keys)
            return d
        out = [self.make(depth - 1, keys) for _ in range(w)]
        return out if k == "list" else tuple(out)


def copy_of(x):
    if isinstance(x, dict):
        return {k: copy_of(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copy_of(v) for v in x]
    if isinstance(x, tuple):
        return tuple([copy_of(v) for v in x])
    return x


def kind_of(x):
    """The shape with exact container types."""
    if isinstance(x, dict):
        return (type(x).__name__, [(k, kind_of(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [kind_of(v) for v in x])
    return "leaf"


def plain(x, f):
    """What normalise promises: tuples and dicts all the way down, mapped leaves."""
    if isinstance(x, dict):
        return f({k: plain(v, f) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return f(tuple([plain(v, f) for v in x]))
    return f(x)


def h_normalise(S, top, mapped):
    g = Gen(S, 4 if S.thorough else 3)
    keys = ("a", "b2")
    obj = {"p": g.make(2, keys), "q": g.make(1, keys)} if top == "dict" else [g.make(2, keys), g.make(1, keys)]
    before, shape = copy_of(obj), kind_of(obj)
    if mapped == "none":
        mp, f = {}, lambda x: x
    elif mapped == "leaves":
        mp = {str: lambda s: "<" + s, complex: lambda z: (z.real, z.imag)}

        def f(x):
            if isinstance(x, str):
                return "<" + x
            if isinstance(x, complex):
                return (x.real, x.imag)
            return x
    else:
        mp = {dict: lambda d: {"d": d}, tuple: lambda t: ("t", t), bool: lambda b: "yes"}

        def f(x):
            if isinstance(x, dict):
                return {"d": x}
            if isinstance(x, tuple):
                return ("t", x)
            if x is True:
                return "yes"
            return x
    out = normalise(obj, mp)
    want = plain(obj, f)
    S.eq(out, want, "normalised")
    S.eq(kind_of(out), kind_of(want), "container types")
    S.eq(obj, before, "input unchanged")
    S.eq(kind_of(obj), shape, "input containers unchanged")


def h_flatten(S, sep):
    g = Gen(S, 4 if S.thorough else 3)
    obj = {"p": g.make(2), "qq": g.make(1)}
    before = copy_of(obj)
    want = {}

    def walk(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                walk(v, [*path, k])
        elif isinstance(x, (list, tuple)):
            for i, v in enumerate(x):
                walk(v, [*path, str(i)])
        else:
            want[sep.join(path)] = x

    walk(obj, [])
    out = flatten_dict(obj, separator=sep) if sep != "_" else flatten_dict(obj)
    S.eq(out, want, "flattened")
    S.eq(list(out), list(want), "flattened order")
    S.eq(obj, before, "input unchanged")


def h_flatten_parent(S):
    a, b = S.int(0, 99), S.chars(2, "print")
    sep = S.choice("_", ".", "::")
    obj = {("H", 1): {"x": a}, 3: [b, a], 0: {"y": b}, None: {"z": a}}
    out = flatten_dict(obj, "top", sep)
    S.eq(out, {f"top{sep}('H', 1){sep}x": a, f"top{sep}3{sep}0": b, f"top{sep}3{sep}1": a, f"top{sep}0{sep}y": b,
               f"top{sep}None{sep}z": a}, "flattened under a parent")
    out = flatten_dict({0: {"y": b}, "y": a, ("H", 1): a}, separator=sep)
    S.eq(out, {f"0{sep}y": b, "y": a, ("H", 1): a}, "zero key")
    n = S.choice(10, 12, 101)
    row = [S.int(-9, 9) for _ in range(n)]
    S.eq(flatten_dict({"r": tuple(row), "s": [row]}, separator=sep),
         {**{f"r{sep}{i}": x for i, x in enumerate(row)}, **{f"s{sep}0{sep}{i}": x for i, x in enumerate(row)}}, "long rows")



def h_exact_type(S):
    """Only the very types that are mapped: a logical is no integer."""
    t = S.chars(2, "print")
    which = S.choice("int", "bool", "both")
    mp = {k: v for k, v in {int: lambda n: ("n", n), bool: lambda b: ("b", b)}.items() if which in (k.__name__, "both")}

    def f(x):
        if x is True or x is False:
            return ("b", x) if bool in mp else x
        return ("n", x) if int in mp else x

    out = normalise({"a": True, "b": 3, "c": [False, 0, t], "d": (1, (True,))}, mp)
    S.eq(out, {"a": f(True), "b": f(3), "c": (f(False), f(0), t), "d": (f(1), (f(True),))}, "types")
    S.eq(type(out["a"]), type(f(True)), "type of a logical")


KEYS = (("H", 1), ("Si", 12), ("H:t [l]", 3), (("H", 1), ("O", 2)), ((("C", 4), ("C", 5), ("C", 6))), "plain", "two words", ("a",),
        (1, 2, 3), 4)
JOINED = ("H_1", "Si_12", "H:t [l]_3", "H_1_O_2", "C_4_C_5_C_6", "plain", "two words", "a", "1_2_3", 4)


def h_json(S, depth):
    g = Gen(S, 3)
    keep = [S.flag() for _ in range(3)]
    off = S.count(0, 3)
    obj, want = {}, {}

    def safe(x):
        if isinstance(x, dict):
            return {k: safe(v) for k, v in x.items()}
        if isinstance(x, list):
            return [safe(v) for v in x]
        if isinstance(x, tuple):
            return tuple([safe(v) for v in x])
        if isinstance(x, complex):
            return {"real": x.real, "imag": x.imag}
        return x

    for i in range(3):
        if keep[i]:
            k = (off + 3 * i) % len(KEYS)
            v = g.make(depth, ("k", "l")) if i < 2 else complex(0.5, -3.0)
            obj[KEYS[k]] = v
            want[JOINED[k]] = safe(v)
    top = S.choice("dict", "nested")
    if top == "nested":
        obj, want = {"outer": obj, "n": 1j}, {"outer": want, "n": {"real": 0.0, "imag": 1.0}}
    before = copy_of(obj)
    out = json_safe(obj)
    S.eq(out, want, "JSON safe")
    S.eq(obj, before, "input unchanged")


def h_json_list(S):
    """Sequences are reached too."""
    a = S.int(-9, 9)
    obj = {"k": [{("H", 1): a, "z": complex(1.0, 2.0)}, complex(3.0, 4.0)], "t": ((complex(0.0, 1.0), {("O", 2): a}),)}
    S.eq(json_safe(obj), {"k": [{"H_1": a, "z": {"real": 1.0, "imag": 2.0}}, {"real": 3.0, "imag": 4.0}],
                          "t": (({"real": 0.0, "imag": 1.0}, {"O_2": a}),)}, "JSON safe sequences")


def h_json_complex(S):
    re, im = float(S.chars(1, "+-") + S.chars(3, "digit") + "." + S.chars(2, "digit")), float(S.chars(2, "digit"))
    S.eq(json_safe(complex(re, im)), {"real": re, "imag": im}, "complex parts")


def h_stack(S):
    out = defaultdict(list)
    names = ("a", "b", ("H", 1), "c")
    want = {}
    for r in range(3 if not S.thorough else 4):
        row = {}
        for k in names[:3]:
            if S.flag():
                row[k] = S.int(-99, 99) if k != "b" else S.chars(1, "print")
                want.setdefault(k, []).append(row[k])
        kept = dict(row)
        stack_dict(out, row)
        S.eq(row, kept, "rows unchanged")
    S.eq(out, want, "stacked")


def h_strip(S):
    keys = ("a", "b", "c", ("H", 1))
    data = {k: (None if S.flag() else (S.int(0, 1), "", S.choice(False, (), [], {}), 0.0)[i]) for i, k in enumerate(keys)}
    before = dict(data)
    excl = S.choice((), ("a",), ("b", "c"), ("zz",), ["c"])
    incl = S.choice(None, (), ("a", "b"), {"c", "zz"}, [("H", 1)])
    if incl is None and S.flag():
        r = strip_nones(data, exclude=excl)
    else:
        r = strip_nones(data, include=incl, exclude=excl)
    want = {}
    for k, v in before.items():
        gone = v is None and k not in excl and (incl is None or k in incl)
        if not gone:
            want[k] = v
    S.check(r is None, "strips in place")
    S.eq(data, want, "entries kept")
    S.eq(list(data), list(want), "order kept")


def h_alias(S):
    d = {}
    for k in ("a", "b", "c", "x"):
        if S.flag():
            d[k] = S.int(-9, 9)
    before = dict(d)
    al = S.choice({}, {"a": "x"}, {"a": "new", "b": "x"}, {"b": "n1", "a": "n2", "zz": "n3"}, {"c": ("t", 1)})
    rep, inp = S.flag(), S.flag()
    out = add_aliases(d, al, replace=rep, inplace=inp)
    want = dict(before)
    for frm, to in al.items():
        if frm in before:
            want[to] = before[frm]
            if rep:
                del want[frm]
    S.eq(out, want, "aliased")
    if inp:
        S.check(out is d, "changed in place")
    else:
        S.check(out is not d, "a copy")
        S.eq(d, before, "input unchanged")


def h_alias_default(S):
    S.eq(add_aliases({"hi": 1, "bye": 2}, {"hi": "frog"}), {"hi": 1, "bye": 2, "frog": 1}, "kept by default")
    d = {"hi": S.int(0, 9)}
    add_aliases(d, {"hi": "frog"})
    S.check("frog" in d, "in place by default")


def h_only(S):
    n = S.count(0, 3)
    seq = [S.int(0, 9) if i % 2 else S.chars(2, "print") for i in range(n)]
    seq = tuple(seq) if S.flag() else seq
    if n == 1:
        S.eq(get_only(seq), seq[0], "the only element")
    else:
        S.raises(ValueError if n else (ValueError, LookupError), lambda: get_only(seq), "not one element")


def cases(tier):
    out = [(f"normalise_{t}_{m}", h_normalise, dict(top=t, mapped=m)) for t in ("dict", "list")
           for m in ("none", "leaves", "containers")]
    out += [(f"flatten{n}", h_flatten, dict(sep=s)) for n, s in enumerate(("_", ".", ""))]
    out += [(f"json{d}", h_json, dict(depth=d)) for d in (0, 1)]
    out += [("flatten_parent", h_flatten_parent), ("exact_type", h_exact_type), ("json_list", h_json_list), ("json_complex", h_json_complex), ("stack", h_stack),
            ("strip_nones", h_strip), ("alias", h_alias), ("alias_default", h_alias_default), ("get_only", h_only)]
    return out
