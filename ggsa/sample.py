"""Evaluation of value-flow terms at an arbitrary point, used only to confirm that
two terms which the normal forms could not identify really denote different values."""
import hashlib
import math
from .terms import Term


def value(t, salt, memo=None, lo=0.2, hi=0.95):
    memo = {} if memo is None else memo
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fn", "sitofp", "uitofp", "fpext", "imul"):
            ch = [y for y in x.a if isinstance(y, Term)]
        elif x.op == "lin":
            ch = [y for y, _ in x.a[1]]
        else:
            ch = []
        todo = [y for y in ch if y not in memo]
        if todo:
            stack += todo
            continue
        v = [memo[y] for y in ch]
        memo[x] = _one(x, v, salt, lo, hi)
        stack.pop()
    return memo[t]


def _one(x, v, salt, lo, hi):
    o = x.op
    try:
        if o in ("flt", "int"):
            return float(x.a[0])
        if o == "fadd":
            return v[0] + v[1]
        if o == "fsub":
            return v[0] - v[1]
        if o in ("fmul", "imul"):
            return v[0] * v[1]
        if o == "fdiv":
            return v[0] / v[1]
        if o == "fneg":
            return -v[0]
        if o in ("sitofp", "uitofp", "fpext"):
            return v[0]
        if o == "lin":
            return x.a[0] + sum(k * y for y, (_, k) in zip(v, x.a[1]))
        if o == "fn":
            n = x.a[0]
            f = dict(sin=math.sin, cos=math.cos, tan=math.tan, sqrt=math.sqrt, fabs=abs, atan2=math.atan2, atan=math.atan,
                     asin=math.asin, acos=math.acos, exp=math.exp, log=math.log, pow=math.pow, round=round, floor=math.floor,
                     hypot=math.hypot, fmod=math.fmod).get(n)
            if f:
                return float(f(*v))
    except (ValueError, ZeroDivisionError, OverflowError):
        return float("nan")
    h = hashlib.sha256((repr(x) + str(salt)).encode()).digest()
    return (1 if h[8] & 1 else -1) * (lo + (hi - lo) * int.from_bytes(h[:7], "big") / 2.0 ** 56)


def differ(a, b, tol=1e-9, points=8):
    """the two terms certainly have different values at some point"""
    for s in range(points):
        m = {}
        x, y = value(a, s, m), value(b, s, m)
        if x == x and y == y and abs(x) != math.inf and abs(y) != math.inf and abs(x - y) > tol * (abs(x) + abs(y)):
            return True
    return False
