"""The harness API on the concrete side: plays back recorded inputs on the real code."""
import io
import os
import tempfile


class PropertyViolation(Exception):
    pass


class Mismatch(BaseException):
    """The recorded inputs do not fit the harness (engine bug)."""


class AssumptionFailed(BaseException):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="sxreplay")
    return _scratch


class Conc:
    symbolic = False

    def __init__(self, values, tier):
        self.values = list(values)
        self.i = 0
        self.tier = tier
        self.thorough = tier == "thorough"
        self.checks = 0
        self.log = []
        self._open = []
        self._undo = []

    def _next(self):
        if self.i >= len(self.values):
            raise Mismatch("inputs exhausted")
        v = self.values[self.i]
        self.i += 1
        return v

    def choice(self, *opts):
        return opts[self._next()]

    def count(self, lo, hi):
        return lo + self.choice(*range(hi - lo + 1))

    def flag(self):
        return self.choice(False, True)

    def int(self, lo, hi):
        return self._next()

    def bool(self):
        return bool(self._next())

    def chars(self, n, alphabet):
        return "".join(self._next() for _ in range(n))

    def bytes(self, n):
        return bytes(self._next() for _ in range(n))

    def be32(self, x):
        return int(x).to_bytes(4, "big")

    def same(self, a, b):
        return a == b

    def file(self, text, name="seed.txt"):
        if not isinstance(text, str):
            text = "".join(text)
        self.log.append((name, text))
        p = os.path.join(scratch(), "f")
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        h = open(p, encoding="utf-8")
        self._open.append(h)
        return h

    def binfile(self, data, name="seed.bin"):
        data = flat(data)
        self.log.append((name, repr(data[:400])))
        return io.BytesIO(data)

    def fs(self, files):
        import shutil
        root = os.path.join(scratch(), "fs")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        self._cwd = getattr(self, "_cwd", None) or os.getcwd()
        os.chdir(root)
        for name, v in files.items():
            content, exists = v if isinstance(v, tuple) else (v, True)
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
            if not exists:
                continue
            if isinstance(content, list) and (not content or not isinstance(content[0], str)) or isinstance(content, bytes):
                data = flat(content)
                self.log.append((name, repr(data[:400])))
            else:
                data = "".join(content)
                self.log.append((name, data))
                data = data.encode()
            with open(name, "wb") as f:
                f.write(data)

    def written(self, name):
        if not os.path.exists(name):
            return None
        with open(name, encoding="utf-8") as f:
            return f.read()

    def serialisers(self):
        pass

    def read_back(self, fmt, text):
        if fmt == "json":
            import json
            return json.loads(text)
        if fmt == "pyyaml":
            import yaml
            return yaml.unsafe_load(text)
        if fmt in ("yaml", "ruamel"):
            from ruamel import yaml
            return yaml.YAML(typ="unsafe").load(text)
        names = {"defaultdict": lambda *a: dict(a[-1]) if a and isinstance(a[-1], dict) else {}, "nan": float("nan"), "inf": float("inf")}
        import re
        return eval(re.sub(r"<class '(\w+)'>|<function [^>]*>", "None", text), {"__builtins__": {}, **names})  # noqa: S307

    def path(self, name):
        from pathlib import Path
        return Path(name)

    def stub(self, fn, model):
        """Replace a module-level function for this run (by patching every name bound to it)."""
        import sys
        for m in list(sys.modules.values()):
            if not getattr(m, "__name__", "").startswith(("castep_outputs", "props")):
                continue
            for k, v in list(vars(m).items()):
                if v is fn:
                    self._undo.append((m, k, v))
                    setattr(m, k, model)

    def unstub(self):
        pass

    def assume(self, c):
        if not c:
            raise AssumptionFailed

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise PropertyViolation(msg)

    def fail(self, msg):
        raise PropertyViolation(msg)

    def eq(self, actual, expected, msg):
        self.checks += 1
        deep(actual, expected, msg)

    def raises(self, exc, fn, msg):
        self.checks += 1
        try:
            r = fn()
        except exc:
            return
        raise PropertyViolation(f"{msg}: no error raised, returned {repr(r)[:200]}")

    def note(self, x):
        self.log.append(("note", repr(x)[:500]))

    def finish(self):
        for m, k, v in reversed(self._undo):
            setattr(m, k, v)
        if getattr(self, "_cwd", None):
            os.chdir(self._cwd)
        for h in self._open:
            h.close()


def flat(data):
    return b"".join(bytes(d) for d in data) if isinstance(data, (list, tuple)) else bytes(data)


def cls(x):
    c = type(x)
    if issubclass(c, bool):
        return bool
    if issubclass(c, dict):
        return dict
    if issubclass(c, str):
        return str
    if issubclass(c, (list, tuple)):
        return tuple
    return c


def deep(a, e, path):
    if hasattr(e, "sx_match"):
        e.sx_match(a, path, None, lambda x, y, p, o: deep(x, y, p))
        return
    ce, ca = cls(e), cls(a)
    if ce is not ca:
        raise PropertyViolation(f"{path}: expected {ce.__name__} {e!r:.200}, got {ca.__name__} {a!r:.200}")
    if ce is dict:
        if set(a) != set(e):
            raise PropertyViolation(f"{path}: keys {sorted(map(repr, a))!r:.300} differ from expected "
                                    f"{sorted(map(repr, e))!r:.300}")
        for k in e:
            deep(a[k], e[k], f"{path}.{k!r}")
        return
    if ce is tuple:
        if len(a) != len(e):
            raise PropertyViolation(f"{path}: length {len(a)} differs from expected {len(e)} "
                                    f"({a!r:.150} vs {e!r:.150})")
        for n, (x, y) in enumerate(zip(a, e)):
            deep(x, y, f"{path}[{n}]")
        return
    if a != e and not (a != a and e != e):
        raise PropertyViolation(f"{path}: {a!r:.200} differs from expected {e!r:.200}")
