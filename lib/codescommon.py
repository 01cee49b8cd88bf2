"""Instances and symbolic setup shared by the checks of the code classes."""
from __future__ import annotations

import functools

import numpy as np

import symx
from symx import NumpyProxy, patch, sym_rank, has_sym

from ldpc import mod2 as _real_mod2

import mqt.qecc.codes as Q
import mqt.qecc.codes.stabilizer_code as M_stab
import mqt.qecc.codes.css_code as M_css
import mqt.qecc.codes.color_code as M_col
from mqt.qecc.codes import CSSCode, StabilizerCode


class Mod2Proxy:
    """ldpc.mod2 (third party) replaced by its contract on symbolic matrices."""

    def __getattr__(self, n):
        return getattr(_real_mod2, n)

    @staticmethod
    def rank(m):
        return sym_rank(m) if has_sym(m) else _real_mod2.rank(m)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], symx.S):
            return a[0]
        return int(*a, **k)


class symint(metaclass=_IntMeta):
    """`int` inside the modules under test: leaves symbolic integers alone."""

    from_bytes = int.from_bytes


def setup():
    npx, m2 = NumpyProxy(), Mod2Proxy()
    tr = [(M_stab, "int", symint)]
    for m in (M_stab, M_css, M_col):
        for name, v in (("np", npx), ("mod2", m2)):
            if hasattr(m, name):
                tr.append((m, name, v))
    return patch(*tr)()


FIVE = ["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"]


@functools.lru_cache(None)
def code(name):
    a = lambda m: np.array(m, dtype=np.int8)  # noqa: E731
    if name.startswith("hex"):
        return Q.HexagonalColorCode(int(name[3:]))
    if name.startswith("sqoct"):
        return Q.SquareOctagonColorCode(int(name[5:]))
    if name.startswith("bb"):
        return Q.construct_bb_code(int(name[2:]))
    if name == "five":
        return StabilizerCode(FIVE, distance=3, Lx=["XXXXX"], Lz=["ZZZZZ"])
    if name == "five_signed":
        return StabilizerCode(["-XZZXI", "+IXZZX", "XIXZZ", "-ZXIXZ"], distance=3)
    if name == "surface3":
        return CSSCode.from_code_name("surface", 3)
    if name == "surface5":
        return CSSCode.from_code_name("surface", 5)
    if name == "422":
        return CSSCode(2, a([[1, 1, 1, 1]]), a([[1, 1, 1, 1]]))
    if name == "xonly":
        return CSSCode(1, a([[1, 1, 0, 0], [0, 1, 1, 0]]), None)
    if name == "zonly":
        return CSSCode(1, None, a([[1, 1, 0, 0], [0, 0, 1, 1]]))
    if name == "redundant":  # dependent, reordered rows
        return CSSCode(2, a([[1, 1, 1, 1, 0, 0], [0, 0, 1, 1, 1, 1], [1, 1, 0, 0, 1, 1]]), a([[0, 0, 1, 1, 1, 1], [1, 1, 1, 1, 0, 0], [1, 1, 0, 0, 1, 1]]))
    if name == "onecx":  # one gate prepares it
        return CSSCode(1, a([[1, 1, 0]]), a([[1, 1, 0]]))
    if name == "asym":  # Hx, Hz of different shape, k = 2
        return CSSCode(1, a([[1, 1, 1, 1, 0, 0], [0, 0, 0, 0, 1, 1]]), a([[1, 1, 0, 0, 0, 0], [0, 0, 1, 1, 1, 1]]))
    if name == "heavy":  # surface code whose given generators are heavier than their products
        h = CSSCode.from_code_name("surface", 3)
        m = np.array([[1, 1, 0, 1], [0, 1, 1, 1], [1, 0, 1, 1], [1, 1, 1, 1]])
        return CSSCode(3, (m @ h.Hx % 2).astype(np.int8), (m @ h.Hz % 2).astype(np.int8))
    if name == "steane_mixed":  # self dual, different generating sets
        h = Q.CSSCode.from_code_name("steane")
        hz = np.array([h.Hx[0] ^ h.Hx[1], h.Hx[1], h.Hx[2] ^ h.Hx[1]], dtype=np.int8)
        return CSSCode(3, h.Hx.astype(np.int8), hz)
    return CSSCode.from_code_name(name)


CSS_SMALL = ["steane", "shor", "surface3", "carbon", "422", "xonly", "zonly", "redundant", "asym", "steane_mixed"]
CSS_BIG = ["hamming", "tetrahedral", "golay", "surface5"]
COLOR = ["hex3", "hex5", "sqoct3", "sqoct5"]
