"""Normal form of floating-point value-flow terms: polynomials with rational
exponents over opaque atoms (real arithmetic; rounding is not modelled)."""
from fractions import Fraction as Fr
import math
from .terms import *

TOL = Fr(1, 10 ** 12)


class NF:
    """dict monomial -> Fraction ; monomial = tuple of (atom id, exponent)"""
    _atoms = {}
    _list = []

    @classmethod
    def atom(cls, key):
        i = cls._atoms.get(key)
        if i is None:
            i = len(cls._list)
            cls._list.append(key)
            cls._atoms[key] = i
        return i


def const(c):
    return {(): Fr(c)} if c else {}


def atom(key):
    return {((NF.atom(key), Fr(1)),): Fr(1)}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return reduce(r)


def reduce(p):
    """expand positive integer powers of polynomial atoms; sin^2 -> 1-cos^2"""
    out, dirty = {}, False
    for m, c in p.items():
        hit = None
        for a, e in m:
            k = NF._list[a]
            if k[0] == "P" and e >= 1:
                hit = (a, e, "P")
                break
            if k[0] == "sin" and e >= 2:
                hit = (a, e, "sin")
                break
        if hit is None:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        dirty = True
        a, e, w = hit
        rest = tuple(x for x in m if x[0] != a)
        if w == "P":
            q = {tuple(sorted(rest + ((a, e - 1),))) if e != 1 else rest: c}
            x = pmul(q, dict(NF._list[a][1]))
        else:
            q = {tuple(sorted(rest + ((a, e - 2),))) if e != 2 else rest: c}
            cs = NF.atom(("cos", NF._list[a][1]))
            x = pmul(q, padd(const(1), {((cs, Fr(2)),): Fr(1)}, -1))
        out = padd(out, x)
    return out


def rnd(c):
    """coefficient rounded for use inside atom keys"""
    if c == 0:
        return 0
    if c.denominator == 1 and abs(c) < 10 ** 13:
        return int(c)
    return "%.12e" % float(c)


def key(p):
    return tuple(sorted(((m, rnd(c)) for m, c in p.items()), key=repr))


def lead(p):
    m = min(p, key=repr)
    return p[m]


def ppow(p, e):
    """p**e, e Fraction"""
    if e == 0:
        return const(1)
    if not p:
        return {}
    if e.denominator == 1 and e > 0:
        r = const(1)
        for _ in range(int(e)):
            r = pmul(r, p)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            cc = c ** int(e)
        elif c > 0:
            cc = Fr(float(c) ** float(e))
            # exact roots stay exact
            if e == Fr(1, 2):
                for num, den in ((math.isqrt(c.numerator), math.isqrt(c.denominator)),):
                    if num * num == c.numerator and den * den == c.denominator:
                        cc = Fr(num, den)
        else:
            cc = None
        if cc is not None:
            return reduce({tuple((a, x * e) for a, x in m): cc})
    # monomial content, and factors that are already the base of a power
    com = None
    for m in p:
        d = dict(m)
        com = d if com is None else {a: min(x, d[a]) for a, x in com.items() if a in d and (d[a] > 0) == (x > 0)}
    com = {a: x for a, x in com.items() if e.denominator == 1 or NF._list[a][0] == "P"}
    if com:
        q = {tuple(sorted((a, x - com.get(a, 0)) for a, x in m if x != com.get(a, 0))): c for m, c in p.items()}
        return pmul({tuple(sorted((a, x * e) for a, x in com.items())): Fr(1)}, ppow(q, e))
    if len(p) > 2:
        mons = set(p)
        for a in list(_pk.values()):
            base = dict(NF._list[a][1])
            if 1 < len(base) < len(p):
                q = pdiv(p, base)
                if q is not None:
                    return pmul({((a, e),): Fr(1)}, ppow(q, e))
    # content: make the polynomial's leading coefficient one
    l = lead(p)
    if e.denominator == 1 or l > 0:
        q = {m: c / l for m, c in p.items()}
        cc = l ** int(e) if e.denominator == 1 else Fr(float(l) ** float(e))
    else:
        l = abs(l)
        q = {m: c / l for m, c in p.items()}
        cc = Fr(float(l) ** float(e))
    fk = frozenset(q.items())
    k = key(q)
    a = _patom(k, fk)
    return {((a, e),): cc}


_pk = {}


def pdiv(p, q, fuel=200):
    """exact quotient p / q of polynomials, or None"""
    if any(e < 0 for m in p for _, e in m) or any(e < 0 for m in q for _, e in m):
        return None
    vs = {a for m in q for a, _ in m}
    if not vs <= {a for m in p for a, _ in m}:
        return None
    order = sorted({a for m in p for a, _ in m})

    def rank(m):
        d = dict(m)
        return [d.get(a, 0) for a in order]
    lq = max(q, key=rank)
    dq = dict(lq)
    out, r = {}, dict(p)
    while r:
        fuel -= 1
        if fuel < 0:
            return None
        lr = max(r, key=rank)
        d = dict(lr)
        for a, e in dq.items():
            if d.get(a, 0) < e:
                return None
            d[a] = d[a] - e
        m = tuple(sorted((a, e) for a, e in d.items() if e))
        c = r[lr] / q[lq]
        out[m] = out.get(m, 0) + c
        for m2, c2 in q.items():
            k = mmul(m, m2)
            v = r.get(k, 0) - c * c2
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return out


def _patom(k, fk):
    if k not in _pk:
        _pk[k] = NF.atom(("P", tuple(sorted(fk, key=repr)), k))
    return _pk[k]


_memo = {}


class NotNumeric(Exception):
    pass


def nf(t):
    r = _memo.get(t)
    if r is None:
        r = _nf(t)
        _memo[t] = r
    return r


def _nf(t):
    o = t.op
    if o == "flt" or o == "int":
        x = t.a[0]
        if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
            return atom(("inf", str(x)))
        return const(Fr(x))
    if o == "fadd":
        return padd(nf(t.a[0]), nf(t.a[1]))
    if o == "fsub":
        return padd(nf(t.a[0]), nf(t.a[1]), -1)
    if o == "fmul":
        return pmul(nf(t.a[0]), nf(t.a[1]))
    if o == "fneg":
        return {m: -c for m, c in nf(t.a[0]).items()}
    if o == "fdiv":
        d = nf(t.a[1])
        if not d:
            return atom(("div0", key(nf(t.a[0]))))
        return pmul(nf(t.a[0]), ppow(d, Fr(-1)))
    if o == "sitofp" or o == "uitofp":
        return nf_int(t.a[0])
    if o == "lin":
        return nf_int(t)
    if o in ("fpext",):
        return nf(t.a[0])
    if o == "fn":
        return _fn(t.a[0], t.a[1:])
    if o == "bool":
        return nf(ite(t.a[0], I(1), I(0)))
    return atom(("t", canon(t)))


def nf_int(t):
    if t.op == "int":
        return const(Fr(t.a[0]))
    if t.op == "lin":
        r = const(Fr(t.a[0]))
        for x, k in t.a[1]:
            r = padd(r, nf_int(x), k)
        return r
    if t.op == "imul":
        return pmul(nf_int(t.a[0]), nf_int(t.a[1]))
    return atom(("t", canon(t)))


_canon = {}


def canon(t):
    """term with every numeric argument replaced by its normal-form key"""
    r = _canon.get(t)
    if r is not None:
        return r
    if t.op in ("fptosi", "fptoui", "fptrunc"):
        r = (t.op, key(nf(t.a[0])))
    elif t.op in ("fmul", "fadd", "fsub", "fdiv", "fneg", "fn"):
        r = ("nf", key(nf(t)))
    else:
        def c(x):
            if isinstance(x, Term):
                return canon(x) if any(isinstance(y, (Term, tuple)) for y in x.a) else x
            if isinstance(x, tuple):
                return tuple(c(y) for y in x)
            return x
        a = tuple(c(x) for x in t.a)
        r = t if all(x is y for x, y in zip(a, t.a)) else (t.op,) + a
    _canon[t] = r
    return r


def _fn(name, args):
    ps = [nf(a) for a in args]
    if name == "sqrt":
        return ppow(ps[0], Fr(1, 2)) if ps[0] else {}
    if name == "cbrt":
        return ppow(ps[0], Fr(1, 3)) if ps[0] else {}
    if name == "pow":
        e = ps[1]
        if not e:
            return const(1)
        if set(e) == {()}:
            v = e[()].limit_denominator(12)
            if abs(float(v) - float(e[()])) < 1e-12:
                return ppow(ps[0], v)
        return atom(("fn", "pow", key(ps[0]), key(e)))
    if name == "hypot":
        return ppow(padd(pmul(ps[0], ps[0]), pmul(ps[1], ps[1])), Fr(1, 2))
    if name in ("sin", "cos", "tan", "asin", "atan", "fabs"):
        p = ps[0]
        if not p:
            return const(1) if name == "cos" else {}
        sgn = 1
        if lead(p) < 0:
            p = {m: -c for m, c in p.items()}
            sgn = 1 if name in ("cos", "fabs") else -1
        if name in ("sin", "cos") and all(c.denominator == 1 and c % 2 == 0 for c in p.values()):
            h = {m: c / 2 for m, c in p.items()}
            s, c = atom(("sin", key(h))), atom(("cos", key(h)))
            if name == "sin":
                r = pmul(pmul(s, c), const(2))
            else:
                r = padd(pmul(pmul(c, c), const(2)), const(-1))
        elif name == "tan":
            s, c = atom(("sin", key(p))), atom(("cos", key(p)))
            r = pmul(s, ppow(c, Fr(-1)))
        else:
            r = atom((name, key(p)))
        return {m: v * sgn for m, v in r.items()}
    return atom(("fn", name) + tuple(key(p) for p in ps))


def peq(a, b):
    for m in a.keys() | b.keys():
        x, y = a.get(m, Fr(0)), b.get(m, Fr(0))
        if x != y and abs(x - y) > TOL * max(abs(x), abs(y)):
            return False
    return True


# ------------------------------------------------------------- comparison
_hi = {}


def inner_ite(t):
    """an ite nested anywhere inside t (its condition), or None"""
    if t in _hi:
        return _hi[t]
    r = None
    if t.op == "ite":
        r = t.a[0]
    elif t.op in ("bool",):
        r = None
    else:
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, Term):
                r = inner_ite(x)
                if r is not None:
                    break
            elif isinstance(x, tuple):
                st += list(x)
    _hi[t] = r
    return r


_dr = {}


def deep_restrict(t, f):
    """resolve every nested ite decided by f"""
    if f == 1 or inner_ite(t) is None and t.op != "bool":
        return t
    k = (t, f)
    r = _dr.get(k)
    if r is not None:
        return r
    if t.op in ("ite", "bool"):
        r = restrict_term(t, f)
        if r.op == "ite":
            r = ite(r.a[0], deep_restrict(r.a[1], f), deep_restrict(r.a[2], f))
        elif r is not t:
            r = deep_restrict(r, f)
    elif t.op == "lin":
        r = I(t.a[0])
        for x, c in t.a[1]:
            r = add(r, mulc(deep_restrict(x, f), c))
    elif t.op == "imul":
        r = mul(deep_restrict(t.a[0], f), deep_restrict(t.a[1], f))
    else:
        def c(x):
            if isinstance(x, Term):
                return deep_restrict(x, f)
            if isinstance(x, tuple):
                return tuple(c(y) for y in x)
            return x
        r = mk(t.op, *[c(x) for x in t.a])
    _dr[k] = r
    return r


def feasible_cube(f, fuel=3000):
    """is some cube of f consistent with the integer bounds of its literals?"""
    n = [0]

    def rec(g, pc):
        n[0] += 1
        if n[0] > fuel:
            raise NotNumeric("condition too large")
        if g == 0 or pc == 0 or infeasible(pc):
            return False
        if g == 1:
            return True
        v, lo, hi = bdd.nodes[g]
        a = bdd.node(v, 0, 1)
        return rec(hi, assume(pc, a)) or rec(lo, assume(pc, bdd.NOT(a)))

    def force(g, pc):
        """add the literals a condition forces; (0, 0) when they contradict each other"""
        again = True
        while again:
            again = False
            for v in sorted(bdd.support(g)):
                a = bdd.node(v, 0, 1)
                if bdd.implies(pc, a) or bdd.AND(pc, a) == 0:
                    continue
                if bdd.implies(g, a):
                    pc = assume(pc, a)
                elif bdd.AND(g, a) == 0:
                    pc = assume(pc, bdd.NOT(a))
                else:
                    continue
                g = bdd.AND(g, pc)
                again = True
            if g == 0 or pc == 0 or infeasible(pc):
                return 0, 0
        return g, pc

    def prop(g, pc):
        """the same search, with literals that lead to a contradiction at once ruled out first"""
        n[0] += 1
        if n[0] > 400:
            raise NotNumeric("condition too large")
        g, pc = force(g, pc)
        again = True
        while again and g:
            again = False
            for v in sorted(bdd.support(g)):
                a = bdd.node(v, 0, 1)
                for b in (a, bdd.NOT(a)):
                    if g and not bdd.implies(pc, b) and bdd.AND(pc, b) and force(bdd.AND(g, b), assume(pc, b))[0] == 0:
                        g, pc = force(bdd.AND(g, bdd.NOT(b)), assume(pc, bdd.NOT(b)))
                        again = True
        if g == 0:
            return False
        left = [v for v in sorted(bdd.support(g)) if not bdd.implies(pc, bdd.node(v, 0, 1)) and bdd.AND(pc, bdd.node(v, 0, 1))]
        if not left or bdd.implies(pc, g):
            return True
        a = bdd.node(left[0], 0, 1)
        return any(prop(bdd.AND(g, b), assume(pc, b)) for b in (a, bdd.NOT(a)))
    try:
        return rec(f, 1)
    except NotNumeric:
        n[0] = 0
        return prop(f, 1)


def differences(a, b, pc=1, limit=4, fuel=4000):
    """[(condition, a-leaf, b-leaf)] where a and b may differ under pc"""
    out = []
    n = [0]
    seen = set()

    def rec(a, b, pc):
        if len(out) >= limit or pc == 0:
            return
        n[0] += 1
        if n[0] > fuel:
            raise NotNumeric("comparison too large")
        a, b = deep_restrict(a, pc), deep_restrict(b, pc)
        if a is b:
            return
        if (a, b, pc) in seen:
            return
        seen.add((a, b, pc))
        c = inner_ite(a)
        if c is None:
            c = inner_ite(b)
        if c is not None and c > 1:
            # split on the top variable of the condition
            while c > 1:
                i, lo, hi = bdd.nodes[c]
                v = bdd.node(i, 0, 1)
                if bdd.implies(pc, v):
                    c = hi
                elif bdd.AND(pc, v) == 0:
                    c = lo
                else:
                    break
            if c <= 1:
                raise NotNumeric("a decided condition was not resolved")
            rec(a, b, assume(pc, v))
            rec(a, b, assume(pc, bdd.NOT(v)))
            return
        if same_leaf(a, b, pc) or infeasible(pc):
            return
        if a.op == "bool" and b.op == "bool":
            # split on the atoms the two sides disagree about
            x = bdd.AND(pc, bdd.OR(bdd.AND(a.a[0], bdd.NOT(b.a[0])), bdd.AND(b.a[0], bdd.NOT(a.a[0]))))
            if not feasible_cube(x):
                return
        out.append((pc, a, b))
    rec(a, b, pc)
    return out


def same_leaf(a, b, pc=1):
    if a is b:
        return True
    if a.op == "bool" and b.op == "bool":
        x = bdd.AND(pc, bdd.OR(bdd.AND(a.a[0], bdd.NOT(b.a[0])), bdd.AND(b.a[0], bdd.NOT(a.a[0]))))
        return x == 0 or prune(x, bdd.support(x)) == 0
    if a.op == "ptr" or b.op == "ptr":
        return a.op == b.op and a.a[0] == b.a[0] and peq(nf_int(a.a[1]), nf_int(b.a[1]))
    if a.op == "undef" or b.op == "undef":
        return False
    if a.op == "agg" and b.op == "agg" and len(a.a) == len(b.a):
        return all(same_leaf(x, y, pc) for x, y in zip(a.a, b.a))
    return peq(nf(a), nf(b))


OPAQUE = {"opq", "opqbase", "bits", "pdiff", "gepc", "sel", "selu", "cat", "mrg"}


def opaque(t):
    """does the term contain something the analysis could not interpret?"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and x[0] in OPAQUE:
                return str(x[0])
            st += list(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op in ("bool", "ite"):
            f = x.a[0]
            if f > 1:
                st += [bdd.atoms[v] for v in bdd.support(f)]
        if x.op in OPAQUE:
            return x.op
        if x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith(
                ("ret:", "indirect", "hav", "strop", "rdf(", "rde(", "rdf#", "rde#", "undefbr", "undefsw")):
            return x.a[0]
        st += list(x.a)
    return None
