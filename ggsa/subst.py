"""Substitution in value-flow terms, re-normalising what becomes constant."""
import math
from .terms import (mk, Term, I, F, Bv, ite, add, mulc, mul, cmp_le0, cmp_eq0, icmp, fcmp, bdd, is_const)


def subst(t, m, memo=None, pc=1):
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o in ("int", "flt", "sym", "undef", "fltnan") or not t.a:
        r = t
    elif o == "lin":
        r = I(t.a[0])
        for x, k in t.a[1]:
            r = add(r, mulc(subst(x, m, memo), k))
    elif o == "ite":
        r = ite(subst_cond(t.a[0], m, memo), subst(t.a[1], m, memo), subst(t.a[2], m, memo))
    elif o == "bool":
        r = Bv(subst_cond(t.a[0], m, memo))
    elif o in ("sdiv", "srem"):
        x, y = (subst(a, m, memo) for a in t.a)
        if x.op == "int" and y.op == "int" and y.a[0]:
            q = abs(x.a[0]) // abs(y.a[0]) * (1 if (x.a[0] < 0) == (y.a[0] < 0) else -1)
            r = I(q) if o == "sdiv" else I(x.a[0] - q * y.a[0])
        else:
            r = mk(o, x, y)
    elif o == "imul":
        r = I(1)
        for a in t.a:
            r = mul(r, subst(a, m, memo))
    else:
        a = tuple(subst(x, m, memo) if isinstance(x, Term) else x for x in t.a)
        r = t if a == t.a else fold(mk(o, *a))
    memo[t] = r
    return r


def fold(t):
    """a floating-point operation on constants"""
    v = [x.a[0] if isinstance(x, Term) and x.op in ("flt", "int") else None if isinstance(x, Term) else x for x in t.a]
    if None in v:
        return t
    try:
        if t.op in ("sitofp", "uitofp", "fpext"):
            return F(v[0])
        if t.op in ("fptosi", "fptoui"):
            return I(int(v[0]))
        if t.op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = v
            return F(a + b if t.op == "fadd" else a - b if t.op == "fsub" else a * b if t.op == "fmul" else a / b)
        if t.op == "fneg":
            return F(-v[0])
        if t.op == "fn" and len(v) == 2:
            f = dict(floor=math.floor, ceil=math.ceil, fabs=abs, sqrt=math.sqrt, trunc=math.trunc,
                     round=lambda x: math.copysign(math.floor(abs(x) + 0.5), x)).get(v[0])
            if f:
                return F(f(v[1]))
        if t.op == "lround":
            return I(int(math.copysign(math.floor(abs(v[0]) + 0.5), v[0])))
    except (ValueError, ZeroDivisionError, OverflowError):
        pass
    return t


def subst_cond(f, m, memo):
    done = {0: 0, 1: 1}

    def rec(n):
        if n in done:
            return done[n]
        v, lo, hi = bdd.nodes[n]
        done[n] = r = bdd.ite(atom(bdd.atoms[v], m, memo), rec(hi), rec(lo))
        return r
    return rec(f)


def atom(a, m, memo):
    if a.op in ("le", "eq"):
        x = subst(a.a[0], m, memo)
        if x is a.a[0]:
            return bdd.var(a)
        x = add(x, I(-a.a[1]))
        return cmp_le0(x) if a.op == "le" else cmp_eq0(x)
    if a.op == "fcmp" and a.a[0] != "uno":
        r = fcmp(a.a[0], subst(a.a[1], m, memo), subst(a.a[2], m, memo))
        return r.a[0]
    b = m.get(a, a)
    return b.a[0] if b.op == "bool" else bdd.var(b if b is not a else mk(a.op, *[subst(x, m, memo) if isinstance(x, Term) else x for x in a.a]))


def expand(t):
    """rewrite remainders as x - k*(x/k)"""
    from .terms import sub
    seen, st, m = set(), [t], {}
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == "srem" and x.a[1].op == "int":
            m[x] = sub(x.a[0], mulc(mk("sdiv", x.a[0], x.a[1]), x.a[1].a[0]))
        if x.op == "lin":
            st += [y for y, _ in x.a[1]]
        elif x.op in ("ite", "bool"):
            for v in bdd.support(x.a[0]):
                st += list(bdd.atoms[v].a)
            st += list(x.a[1:])
        else:
            st += list(x.a)
    return subst(t, m) if m else t
