"""Symbolic Pauli text: a str subclass whose characters are decided lazily by the path solver."""
from __future__ import annotations

import symx
from symx import S, s_and, s_not


class SymChar(str):
    """One symbolic character out of a small alphabet (bits -> index)."""

    def __new__(cls, bits, alphabet):
        o = str.__new__(cls, "\u0000")
        o.bits, o.alpha = bits, alphabet
        return o

    def is_(self, ch):
        if ch not in self.alpha:
            return S(0)
        i = self.alpha.index(ch)
        return s_and(*[b if (i >> k) & 1 else s_not(b) for k, b in enumerate(self.bits)])

    def value(self):
        i = 0
        for k, b in enumerate(self.bits):
            if bool(S.of(b)):
                i |= 1 << k
        return self.alpha[i]

    def __eq__(self, o):
        if isinstance(o, SymChar):
            return self.value() == o.value()
        if isinstance(o, str):
            return self.is_(o)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r) if isinstance(r, S) else not r

    def __hash__(self):
        return hash(self.value())

    def __str__(self):
        return self.value()

    def __contains__(self, o):
        return o in self.value()

    def __len__(self):
        return 1

    def __iter__(self):
        yield self

    def __getitem__(self, i):
        if i in (0, -1):
            return self
        return self.value()[i]

    def __add__(self, o):
        return self.value() + str(o)

    def __radd__(self, o):
        return str(o) + self.value()


class SymStr(str):
    """A text of fixed length with symbolic characters."""

    def __new__(cls, chars):
        o = str.__new__(cls, "\u0000" * len(chars))
        o.chars = list(chars)
        return o

    def value(self):
        return "".join(c.value() if isinstance(c, SymChar) else c for c in self.chars)

    def __len__(self):
        return len(self.chars)

    def __iter__(self):
        return iter(self.chars)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.chars[i])
        return self.chars[i]

    def __eq__(self, o):
        if isinstance(o, str) and len(o) != len(self):
            return False
        if not isinstance(o, str):
            return False
        r = S(1)
        for a, b in zip(self, o):
            r = s_and(r, a == b)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r) if isinstance(r, S) else not r

    def __hash__(self):
        return hash(self.value())

    def __str__(self):
        return self.value()

    def __contains__(self, o):
        return o in self.value()

    def __add__(self, o):
        return SymStr(self.chars + list(o))

    def __radd__(self, o):
        return SymStr(list(o) + self.chars)


def _delegate(name):
    def f(self, *a, **k):
        return getattr(self.value(), name)(*a, **k)  # decides the characters on this path

    return f


for _n in dir(str):
    if not _n.startswith("__") and _n != "value":
        setattr(SymChar, _n, _delegate(_n))
        setattr(SymStr, _n, _delegate(_n))
for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__mul__", "__rmul__", "__mod__", "__format__", "__repr__"):
    setattr(SymChar, _n, _delegate(_n))
    setattr(SymStr, _n, _delegate(_n))


def pauli_text(ctx, name, n, sign="none"):
    """(text, x bits, z bits, sign bit): a Pauli string of length n."""
    xs = [ctx.bit(f"{name}x{i}") for i in range(n)]
    zs = [ctx.bit(f"{name}z{i}") for i in range(n)]
    # index = x + 2 z -> I X Z Y
    sb = 0
    head = []
    if sign == "sym":
        sb = ctx.bit(f"{name}s")
        head = [SymChar([sb], "+-")] if isinstance(sb, S) else ["-" if sb else "+"]
    elif sign in ("+", "-"):
        head = [sign]
        sb = int(sign == "-")
    if any(isinstance(b, S) for b in xs + zs):
        return SymStr(head + [SymChar([x, z], "IXZY") for x, z in zip(xs, zs)]), xs, zs, sb
    return "".join(head) + "".join("IXZY"[x + 2 * z] for x, z in zip(xs, zs)), xs, zs, sb
