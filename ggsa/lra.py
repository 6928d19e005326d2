"""Linear facts over normal-form monomials: the polyhedral part of the analysis.

A fact is (poly, strict) meaning poly < 0 (strict) or poly <= 0; monomials other
than the constant are the dimensions.  Entailment is decided by projection
(Fourier-Motzkin elimination), |x| by the two signs of x."""
from fractions import Fraction as Fr
from .terms import bdd, show
from .nf import NF, nf, padd

LIMIT = 4000


class TooLarge(Exception):
    pass


def neg(p):
    return {m: -c for m, c in p.items()}


def minus(p, q):
    return padd(p, q, -1)


def le(p, q=None):
    return (p if q is None else minus(p, q), False)


def lt(p, q=None):
    return (p if q is None else minus(p, q), True)


def literal(a, val):
    """facts stated by one literal of a path condition (conjunction), or []"""
    if a.op == "fcmp":
        op = a.a[0]
        x, y = nf(a.a[1]), nf(a.a[2])
        if op in ("ogt", "ugt"):
            return [lt(y, x)] if val else [le(x, y)]
        if op in ("oge", "uge"):
            return [le(y, x)] if val else [lt(x, y)]
        if op in ("olt", "ult"):
            return [lt(x, y)] if val else [le(y, x)]
        if op in ("ole", "ule"):
            return [le(x, y)] if val else [lt(y, x)]
        if op in ("oeq", "ueq") and val or op in ("one", "une") and not val:
            return [le(x, y), le(y, x)]
    elif a.op == "le":
        p = nf_of_int(a.a[0])
        k = {(): Fr(a.a[1])} if a.a[1] else {}
        return [le(p, k)] if val else [le(minus(padd(k, {(): Fr(1)}), p))]
    elif a.op == "eq" and val:
        p = nf_of_int(a.a[0])
        k = {(): Fr(a.a[1])} if a.a[1] else {}
        return [le(p, k), le(k, p)]
    return []


def nf_of_int(t):
    from .nf import nf_int
    return nf_int(t)


def unkey(k):
    return {m: (Fr(c) if not isinstance(c, str) else Fr(c)) for m, c in k}


def fabs_atoms(facts):
    out = set()
    for p, _ in facts:
        for m in p:
            for a, e in m:
                if NF._list[a][0] == "fabs":
                    out.add(a)
    return out


def subst_atom(p, a, q):
    """replace the monomial that is the atom a alone by the polynomial q"""
    m = ((a, Fr(1)),)
    if m not in p:
        return p
    r = dict(p)
    c = r.pop(m)
    return padd(r, q, c)


def signs(facts):
    """case split on the sign of the argument of every |x|"""
    at = sorted(fabs_atoms(facts))
    if len(at) > 6:
        raise TooLarge()
    out = [list(facts)]
    for a in at:
        x = unkey(NF._list[a][1])
        nxt = []
        for fs in out:
            nxt.append([(subst_atom(p, a, x), s) for p, s in fs] + [le(neg(x))])
            nxt.append([(subst_atom(p, a, neg(x)), s) for p, s in fs] + [lt(x)])
        out = nxt
    return out


_cm = {}


def contradictory(facts):
    k = frozenset((frozenset(p.items()), s) for p, s in facts)
    r = _cm.get(k)
    if r is None:
        r = _cm[k] = all(fm(fs) for fs in signs(facts))
    return r


def clean(p):
    """drop the rounding residue of cancelled coefficients"""
    big = max((abs(c) for c in p.values()), default=0)
    return {m: c for m, c in p.items() if abs(c) > big * Fr(1, 10 ** 11)}


def fm(facts):
    """no point satisfies all facts"""
    fs = [(clean(p), s) for p, s in facts]
    while True:
        cur, seen = [], set()
        for p, s in fs:
            if not [m for m in p if m != ()]:
                c = p.get((), Fr(0))
                if c > 0 or (s and c == 0):
                    return True
                continue
            l = max(abs(c) for c in p.values())
            k = (frozenset((m, round(float(c / l), 10)) for m, c in p.items()), s)
            if k not in seen:
                seen.add(k)
                cur.append((p, s))
        if not cur:
            return False
        count = {}
        for p, s in cur:
            for m, c in p.items():
                if m != ():
                    u, d = count.get(m, (0, 0))
                    count[m] = (u + 1, d) if c > 0 else (u, d + 1)
        m = min(count, key=lambda x: (count[x][0] * count[x][1] - sum(count[x]), repr(x)))
        up = [f for f in cur if f[0].get(m, 0) > 0]
        dn = [f for f in cur if f[0].get(m, 0) < 0]
        fs = [f for f in cur if m not in f[0]]
        for p, s in up:
            for q, t in dn:
                a, b = p[m], -q[m]
                r = padd({x: c / a for x, c in p.items()}, {x: c / b for x, c in q.items()})
                r.pop(m, None)
                fs.append((clean(r), s or t))
        if len(fs) > LIMIT:
            raise TooLarge()


def implies(facts, goal):
    """every point satisfying the facts satisfies the goal fact"""
    p, s = goal
    return contradictory(list(facts) + [(neg(p), not s)])


def cube_facts(cube):
    return [f for a, v in cube for f in literal(a, v)]


def cubes(f, limit=512):
    ps = bdd.paths(f, limit + 1)
    if len(ps) > limit:
        raise TooLarge()
    return ps
