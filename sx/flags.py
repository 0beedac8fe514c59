"""A symbolic stand-in for a value of an enum.Flag."""
from __future__ import annotations

import z3

from .values import bexpr, mkbool


class FlagSet:
    """A value of an enum.Flag whose members are symbolic truth values."""

    def __init__(self, flag, bits):
        self.flag = flag
        self.bits = bits

    @property
    def __class__(self):
        return self.flag

    def each(self, o):
        if type(o) is FlagSet:
            return o.bits
        return {v: bool(o.value & v) for v in self.bits}

    def z(self, fn, o):
        other = self.each(o)
        return FlagSet(self.flag, {v: mkbool(fn(bexpr(b), bexpr(other[v]))) for v, b in self.bits.items()})

    def has(self, o):
        other = self.each(o)
        return mkbool(z3.simplify(z3.And([z3.Implies(bexpr(other[v]), bexpr(b)) for v, b in self.bits.items()])))

    def __contains__(self, o):
        return bool(self.has(o))

    def __or__(self, o):
        return self.z(z3.Or, o)

    def __and__(self, o):
        return self.z(z3.And, o)

    def __xor__(self, o):
        return self.z(z3.Xor, o)

    __ror__, __rand__, __rxor__ = __or__, __and__, __xor__

    def __invert__(self):
        return FlagSet(self.flag, {v: mkbool(z3.Not(bexpr(b))) for v, b in self.bits.items()})

    def __bool__(self):
        return bool(mkbool(z3.simplify(z3.Or([bexpr(b) for b in self.bits.values()]))))

    def __eq__(self, o):
        other = self.each(o)
        return bool(mkbool(z3.simplify(z3.And([bexpr(b) == bexpr(other[v]) for v, b in self.bits.items()]))))

    def __hash__(self):
        return 0

    def __iter__(self):
        return iter([f for f in self.flag if self.bits[f.value]])

    @property
    def value(self):
        return sum(v for v, b in self.bits.items() if b)
