"""Stand-ins for the third-party serialisers: what they are given is kept, a token for it is written."""
from __future__ import annotations

import builtins
import copy
import json
import pprint
import re
import sys
import types

RECORDS: list = []
PLAIN = (str, int, float, bool, type(None))


def token(fmt, data):
    RECORDS.append((fmt, data))
    return f"<<{len(RECORDS) - 1}>>"


def _snap(x):
    """Containers as they are now (leaves are immutable)."""
    if isinstance(x, dict):
        d = copy.copy(x)
        for k in list(d):
            d[k] = _snap(d[k])
        return d
    if isinstance(x, list):
        return [_snap(v) for v in x]
    return tuple(_snap(v) for v in x) if type(x) is tuple else x


def jsonable(x, default, skipkeys):
    if isinstance(x, dict):
        pairs = []
        for k, v in x.items():
            if not (isinstance(k, PLAIN) or getattr(k, "_sx_leaf", False) or _symleaf(k)):
                if skipkeys:
                    continue
                raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")
            pairs.append((k, jsonable(v, default, skipkeys)))
        from . import models
        return models.sx_mkdict(pairs)
    if isinstance(x, (list, tuple)):
        return [jsonable(v, default, skipkeys) for v in x]
    if isinstance(x, PLAIN) or _symleaf(x):
        return x
    if default is None:
        raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")
    return jsonable(default(x), default, skipkeys)


def _symleaf(x):
    from . import values
    return type(x) in (values.SymStr, values.SymInt, values.SymFloat, values.SymBool)


def cut(x, depth):
    if depth is None or not isinstance(x, (dict, list, tuple)):
        return x
    if depth == 0:
        return "..."
    if isinstance(x, dict):
        return {k: cut(v, depth - 1) for k, v in x.items()}
    return type(x)(cut(v, depth - 1) for v in x)


def json_dumps(obj, *, skipkeys=False, default=None, **k):
    return token("json", jsonable(obj, default, skipkeys))


def json_dump(obj, fp, **k):
    fp.write(json_dumps(obj, **k))


def yaml_dump(data, stream=None, **k):
    t = token("yaml", _snap(data)) + "\n"
    return t if stream is None else stream.write(t) and None


def pformat(obj, indent=1, width=80, depth=None, **k):
    return token("print", cut(_snap(obj), depth))


def pprint_(obj, stream=None, *a, depth=None, **k):
    (stream or sys.stdout).write(pformat(obj, depth=depth) + "\n")


def print_(*args, sep=" ", end="\n", file=None, flush=False):
    (file or sys.stdout).write((sep or " ").join(a if isinstance(a, str) else token("print", _snap(a)) for a in args) + end)


class YAML:
    """ruamel.yaml.YAML, where it is not installed."""

    def __init__(self, *a, typ=None, **k):
        self.typ = typ

    def dump(self, data, stream=None, **k):
        yaml_dump(data, stream)


def install():
    """Before the package is imported: ruamel is part of the environment the package runs in."""
    try:
        import ruamel.yaml  # noqa: F401
    except ImportError:
        pkg, mod = types.ModuleType("ruamel"), types.ModuleType("ruamel.yaml")
        pkg.__path__, pkg.yaml, mod.YAML = [], mod, YAML
        sys.modules.update({"ruamel": pkg, "ruamel.yaml": mod})


def stubs():
    RECORDS.clear()
    out = {json.dump: json_dump, json.dumps: json_dumps, pprint.pformat: pformat, pprint.pprint: pprint_, pprint.pp: pprint_,
           builtins.print: print_}
    try:
        import yaml
        out |= {yaml.dump: yaml_dump}
    except ImportError:
        pass
    return out


def read_back(fmt, text):
    m = re.fullmatch(r"\s*<<(\d+)>>\s*", text)
    if m is None:
        raise ValueError(f"not one document: {text!r}")
    kind, data = RECORDS[int(m[1])]
    want = {"json": "json", "yaml": "yaml", "ruamel": "yaml", "pyyaml": "yaml"}.get(fmt, "print")
    if kind != want:
        raise ValueError(f"{fmt} asked for, written as {kind}")
    return data
