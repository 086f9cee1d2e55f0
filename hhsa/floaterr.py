"""Bounds for integers obtained from rounded square roots.

A double computed from one machine integer k by multiplication with positive constants, addition of constants and one square root is
a + b*sqrt(u + v*k) up to an error that is bounded here by running error analysis (every operation rounds to nearest: relative error
at most 2^-53). Where the error is below 1/2, the integer part p of the double satisfies

    (p - a - 1/2)^2 <= b^2 (u + v*k) < (p + 3/2 - a)^2

which is a fact about integers that exact arithmetic can use."""
from fractions import Fraction as Fr
import math, struct
from .terms import *

EPS = Fr(1, 1 << 53)

class Lin:
    """u + v*k >= 0 with relative error r"""
    def __init__(s, k, u, v, r): s.k = k; s.u = u; s.v = v; s.r = r
class Sq:
    """a + b*sqrt(u + v*k), b > 0, with absolute error e for all 0 <= k < 2^64"""
    def __init__(s, k, u, v, a, b, e): s.k = k; s.u = u; s.v = v; s.a = a; s.b = b; s.e = e
    def top(s): return abs(s.a) + s.b * isq(s.u + s.v * (1 << 64))

def isq(x):
    """an upper bound of the square root of a rational"""
    return Fr(math.isqrt(math.ceil(x)) + 1)

def const(t):
    c = fcv(t)
    if c is None or c != c or abs(c) == math.inf: return None
    return Fr(c)

def shape(t):
    op = t.op
    if op == "i2f":
        p, signed, bits = t.a
        if signed or bits != 64: return None
        return Lin(p, Fr(0), Fr(1), EPS)
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        x, y = t.a
        c = const(y)
        if c is None and op in ("fadd", "fmul"): x, y = y, x; c = const(y)
        if c is None: return None
        s = shape(x)
        if s is None: return None
        if op == "fsub": c = -c
        if op == "fdiv":
            if c == 0: return None
            c = 1 / c
        if op in ("fmul", "fdiv"):
            if c <= 0: return None
            if isinstance(s, Lin): return Lin(s.k, s.u * c, s.v * c, s.r + 2 * EPS)
            return Sq(s.k, s.u, s.v, s.a * c, s.b * c, s.e * c + (s.top() * c + 1) * 2 * EPS)
        if isinstance(s, Lin):
            if c < 0: return None
            return Lin(s.k, s.u + c, s.v, s.r + 2 * EPS)
        return Sq(s.k, s.u, s.v, s.a + c, s.b, s.e + (s.top() + abs(c) + 1) * 2 * EPS)
    if op == "app" and t.a[0] == "sqrt":
        s = shape(t.a[1])
        if not isinstance(s, Lin): return None
        r = s.r + 2 * EPS
        return Sq(s.k, s.u, s.v, Fr(0), Fr(1), isq(s.u + s.v * (1 << 64)) * r)
    return None

def facts(a):
    """a: f2i atom -> (k, [polynomials over ('p', 'k') as {(deg p, deg k): coefficient} known to be >= 0]) or None"""
    t, w, signed = a.a
    if w != 64 or not isinstance(t, T): return None
    if t.op == "app" and t.a[0] in ("floor", "trunc"): t = t.a[1]
    s = shape(t)
    half = Fr(1, 2)
    if not isinstance(s, Sq) or s.e >= half or s.top() + 1 >= (1 << (63 if signed else 64)): return None
    out = []
    b2 = s.b * s.b
    # p <= a + b sqrt(S) + 1/2, or p = 0
    z = s.a + half
    if z <= 0 and z * z <= b2 * s.u:
        out.append(tight({(2, 0): Fr(-1), (1, 0): 2 * z, (0, 0): b2 * s.u - z * z, (0, 1): b2 * s.v}, False))
    # p + 3/2 - a > b sqrt(S)
    z = 3 * half - s.a
    if z >= 0:
        out.append(tight({(2, 0): Fr(1), (1, 0): 2 * z, (0, 0): z * z - b2 * s.u, (0, 1): -b2 * s.v}, True))
    out.append({(1, 0): Fr(-1), (0, 0): Fr(math.floor(s.top() + 1))})
    return s.k, out

def tight(g, strict):
    """g >= 0 (g > 0 if strict) over the integers"""
    den = 1
    for m, c in g.items():
        if m != (0, 0): den = den * c.denominator // math.gcd(den, c.denominator)
    g = {m: c * den for m, c in g.items()}
    c = g.get((0, 0), Fr(0))
    g[(0, 0)] = Fr(math.ceil(c) - 1) if strict else Fr(math.floor(c))
    return {m: c for m, c in g.items() if c}
