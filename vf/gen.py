"""Generators of literals."""
from fractions import Fraction
from .eo import *

LITSIG = """(declare-const Int Type)
(declare-const Rat Type)
(declare-const Dec Type)
(declare-const Bin Type)
(declare-const Hex Type)
(declare-const Str Type)
(declare-consts <numeral> Int)
(declare-consts <rational> Rat)
(declare-consts <decimal> Dec)
(declare-consts <binary> Bin)
(declare-consts <hexadecimal> Hex)
(declare-consts <string> Str)
"""

CPS = [ord(c) for c in "abAZ09 "] + [34, 92, 10, 9, 0, 127, 128, 255, 256, 0xA, 0x3BB, 0xFFFF, 0x10000, 0x2FFFF, 13, 59, 124, 40, 41, 117, 123, 125]


def gint(s, small=False):
    m = s.n(8)
    if m < 3 or small:
        return s.r(-3, 9) if s.p(30) else s.r(0, 6)
    if m == 3:
        return s.pick([0, 1, -1, 2, -2])
    if m == 4:
        return s.pick([1, -1]) * (2 ** s.pick([7, 8, 16, 31, 32, 33, 62, 63, 64, 65, 127, 128]) + s.r(-2, 2))
    if m == 5:
        return s.pick([196607, 196608, 65, 0x2FFFF, 0x30000, 255, 256, 10, 1000000007])
    if m == 6:
        return s.pick([1, -1]) * s.n(10 ** s.r(1, 18))
    v = 0
    for _ in range(s.r(1, 4)):
        v = v * 10 ** 15 + s.n(10 ** 15)
    return s.pick([1, -1]) * v


def gwidth(s):
    return s.w([(6, 1), (5, 2), (6, 4), (4, 8), (3, 3), (2, 5), (1, 16), (2, 32), (1, 33), (2, 64), (1, 65), (1, 12), (1, 100)])


def gbv(s, w):
    m = s.n(5)
    if m == 0:
        return 0
    if m == 1:
        return (1 << w) - 1
    if m == 2:
        return 1 << (w - 1)
    if m == 3:
        return 1
    v = 0
    for _ in range(0, w, 30):
        v = (v << 30) | s.n(1 << 30)
    return v & ((1 << w) - 1)


def gstr(s, n=None):
    n = s.w([(3, 1), (2, 0), (3, 2), (3, 3), (2, 5), (1, 9)]) if n is None else n
    plain = s.p(70)
    al = [97, 98, 99] if plain else CPS
    return tuple(s.pick(al) for _ in range(n))


def gfrac(s):
    n, d = gint(s), gint(s) or 1
    return Fraction(n, abs(d))


def gdec(s):
    return Fraction(gint(s), 10 ** s.r(0, 6))


def glit(s, k=None, w=None):
    k = k or s.pick("zqdyxsb")
    if k == 'b':
        return B(s.p(50))
    if k == 'z':
        return Z(gint(s))
    if k == 'q':
        return ('q', gfrac(s))
    if k == 'd':
        return ('d', gdec(s))
    if k == 'y':
        w = w or gwidth(s)
        return ('y', w, gbv(s, w))
    if k == 'x':
        w = w or 4 * s.w([(4, 1), (4, 2), (2, 4), (1, 8), (1, 16), (1, 17), (1, 3)])
        w = max(4, w - w % 4)
        return ('x', w, gbv(s, w))
    return ('s', gstr(s))
