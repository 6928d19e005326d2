"""Value domain of the ggsa abstract interpreter.

Integers are linear combinations of opaque atoms (wrap-around is not modelled,
see DESIGN.md), booleans are BDDs over comparison atoms, everything else is a
hash-consed operator term.  `ite` terms carry the condition under which a value
flows, so that merging two control-flow paths loses nothing.
"""
import math
import sys
sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("op", "a", "id", "_h")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = Term._tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a = op, a
        Term._n += 1
        t.id = Term._n
        Term._tab[k] = t
    return t


# ---------------------------------------------------------------- BDD
class BDD:
    """Reduced ordered BDDs; variables are atoms in creation order."""

    def __init__(self):
        self.nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.uniq = {}
        self.cache = {}
        self.atoms = []        # var -> atom term
        self.var_of = {}
        self.by_key = {}       # P -> list of vars (implied-literal index)

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def var(self, atom):
        v = self.var_of.get(atom)
        if v is None:
            v = len(self.atoms)
            self.atoms.append(atom)
            self.var_of[atom] = v
            k = atom_key(atom)
            if k is not None:
                self.by_key.setdefault(k, []).append(v)
        return self.node(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        nf, ng, nh = self.nodes[f], self.nodes[g], self.nodes[h]
        v = min(nf[0], ng[0], nh[0])
        f0, f1 = (nf[1], nf[2]) if nf[0] == v else (f, f)
        g0, g1 = (ng[1], ng[2]) if ng[0] == v else (g, g)
        h0, h1 = (nh[1], nh[2]) if nh[0] == v else (h, h)
        r = self.node(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def AND(self, f, g):
        return self.ite(f, g, 0)

    def OR(self, f, g):
        return self.ite(f, 1, g)

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def implies(self, f, g):
        return self.ite(f, g, 1) == 1

    def restrict(self, f, c):
        """Coudert-Madre: simplify f knowing c."""
        if c == 0:
            return f
        if c == 1 or f <= 1:
            return f
        k = ("r", f, c)
        r = self.cache.get(k)
        if r is not None:
            return r
        nf, nc = self.nodes[f], self.nodes[c]
        if nc[0] < nf[0]:
            r = self.restrict(f, self.OR(nc[1], nc[2]))
        elif nf[0] < nc[0]:
            r = self.node(nf[0], self.restrict(nf[1], c), self.restrict(nf[2], c))
        else:
            if nc[1] == 0:
                r = self.restrict(nf[2], nc[2])
            elif nc[2] == 0:
                r = self.restrict(nf[1], nc[1])
            else:
                r = self.node(nf[0], self.restrict(nf[1], nc[1]),
                              self.restrict(nf[2], nc[2]))
        self.cache[k] = r
        return r

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            n = st.pop()
            if n <= 1 or n in seen:
                continue
            seen.add(n)
            v, lo, hi = self.nodes[n]
            out.add(v)
            st += [lo, hi]
        return out

    def cofactor(self, f, v, val):
        if f <= 1:
            return f
        k = ("c", f, v, val)
        r = self.cache.get(k)
        if r is not None:
            return r
        nv, lo, hi = self.nodes[f]
        if nv > v:
            r = f
        elif nv == v:
            r = hi if val else lo
        else:
            r = self.node(nv, self.cofactor(lo, v, val), self.cofactor(hi, v, val))
        self.cache[k] = r
        return r

    def paths(self, f, limit=4096):
        """cubes (list of (atom, bool)) of f"""
        out = []

        def rec(n, acc):
            if len(out) >= limit:
                return
            if n == 0:
                return
            if n == 1:
                out.append(list(acc))
                return
            v, lo, hi = self.nodes[n]
            rec(lo, acc + [(self.atoms[v], False)])
            rec(hi, acc + [(self.atoms[v], True)])
        rec(f, [])
        return out

    def show(self, f, limit=6):
        if f == 0:
            return "false"
        if f == 1:
            return "true"
        ps = self.paths(f, limit + 1)
        s = " | ".join(" & ".join(("" if b else "!") + show(a) for a, b in p)
                       for p in ps[:limit])
        return s + (" | ..." if len(ps) > limit else "")


bdd = BDD()


def atom_key(atom):
    if atom.op in ("le", "eq"):
        return atom.a[0]
    if atom.op == "fcmp":
        return ("f", atom.a[1]) if atom.a[2].op == "flt" else None
    return None


# ---------------------------------------------------------------- basics
def I(n):
    return mk("int", int(n))


def F(x):
    x = float(x)
    if x != x:
        return mk("fltnan")
    return mk("flt", x, math.copysign(1.0, x))


def Bv(f):
    return mk("bool", f)


TRUE, FALSE = Bv(1), Bv(0)
UNDEF = mk("undef")


def sym(name, kind="i", lo=None, hi=None):
    return mk("sym", name, kind, lo, hi)


def ptr(obj, off=None):
    return mk("ptr", obj, off if off is not None else I(0))


NULLOBJ = "NULL"
NULL = ptr(NULLOBJ, I(0))


def is_const(t):
    return t.op in ("int", "flt")


def leaves(t):
    """leaves of an ite tree (set)"""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.a[1], x.a[2]]
        else:
            out.add(x)
    return out


def nleaves(t, cap=1 << 30):
    n, st, seen = 0, [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.a[1], x.a[2]]
        else:
            n += 1
            if n > cap:
                return n
    return n


def ite(c, a, b):
    """c: bdd node"""
    if c == 1 or a is b:
        return a
    if c == 0:
        return b
    if a.op == "bool" and b.op == "bool":
        return Bv(bdd.ite(c, a.a[0], b.a[0]))
    if a.op == "undef" and b.op == "undef":
        return a
    if a.op == "agg" and b.op == "agg" and len(a.a) == len(b.a):
        return mk("agg", *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    # simplify nested occurrences of the same condition
    a = restrict_term(a, c)
    b = restrict_term(b, bdd.NOT(c))
    if a is b:
        return a
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        return ptr(a.a[0], ite(c, a.a[1], b.a[1]))
    if b.op == "ite":
        if b.a[1] is a:
            return ite(bdd.OR(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(bdd.OR(c, bdd.NOT(b.a[0])), a, b.a[1])
    if a.op == "ite":
        if a.a[1] is b:
            return ite(bdd.AND(c, bdd.NOT(a.a[0])), a.a[2], b)
        if a.a[2] is b:
            return ite(bdd.AND(c, a.a[0]), a.a[1], b)
    # orientation: canonical w.r.t. negation
    return mk("ite", c, a, b)


_rt = {}


def restrict_term(t, c):
    """simplify the top-level ite structure (and bool) of t knowing c"""
    if c == 1 or t.op not in ("ite", "bool", "agg"):
        return t
    if c == 0:
        return t
    k = (t, c)
    r = _rt.get(k)
    if r is not None:
        return r
    if t.op == "bool":
        f = t.a[0]
        if bdd.AND(f, c) == 0:
            r = FALSE
        elif bdd.implies(c, f):
            r = TRUE
        else:
            r = t
    elif t.op == "agg":
        r = mk("agg", *[restrict_term(x, c) for x in t.a])
    else:
        f = t.a[0]
        if bdd.implies(c, f):
            r = restrict_term(t.a[1], c)
        elif bdd.AND(c, f) == 0:
            r = restrict_term(t.a[2], c)
        else:
            a = restrict_term(t.a[1], bdd.AND(c, f))
            b = restrict_term(t.a[2], bdd.AND(c, bdd.NOT(f)))
            if a is b:
                r = a
            elif a is t.a[1] and b is t.a[2]:
                r = t
            else:
                r = mk("ite", f, a, b)
    _rt[k] = r
    return r


def lift(fn, *ts, cap=256):
    """apply fn to leaves of ite-structured args"""
    for i, t in enumerate(ts):
        if t.op == "ite":
            if nleaves(t, cap) > cap:
                return None
            c = t.a[0]
            x = lift(fn, *(list(ts[:i]) + [t.a[1]] + list(ts[i + 1:])), cap=cap)
            y = lift(fn, *(list(ts[:i]) + [t.a[2]] + list(ts[i + 1:])), cap=cap)
            if x is None or y is None:
                return None
            return ite(c, x, y)
    return fn(*ts)


# ---------------------------------------------------------------- linear ints
def lin_parts(t):
    """(const, {atom: coef})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0),
                         key=lambda kv: kv[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def _constleaf_ite(t):
    return t.op == "ite" and nleaves(t, 64) <= 64 and all(
        x.op == "int" for x in leaves(t))


def add(a, b):
    if a.op == "undef" or b.op == "undef":
        return UNDEF
    if a.op == "bool":
        a = ite(a.a[0], I(1), I(0))
    if b.op == "bool":
        b = ite(b.a[0], I(1), I(0))
    if a.op == "ite" and (b.op == "int" or (_constleaf_ite(a) and _constleaf_ite(b))):
        r = lift(add, a, b)
        if r is not None:
            return r
    if b.op == "ite" and a.op == "int":
        r = lift(add, a, b)
        if r is not None:
            return r
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return mk_lin(c1 + c2, d1)


def mulc(a, k):
    if a.op == "undef":
        return UNDEF
    if a.op == "bool":
        a = ite(a.a[0], I(1), I(0))
    if k == 1:
        return a
    if a.op == "ite":
        r = lift(lambda x: mulc(x, k), a)
        if r is not None:
            return r
    c, d = lin_parts(a)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


def sub(a, b):
    return add(a, mulc(b, -1))


def mul(a, b):
    if a.op == "int":
        return mulc(b, a.a[0])
    if b.op == "int":
        return mulc(a, b.a[0])
    if a.op == "undef" or b.op == "undef":
        return UNDEF
    if _constleaf_ite(a) or _constleaf_ite(b):
        r = lift(mul, a, b)
        if r is not None:
            return r
    if b.id < a.id:
        a, b = b, a
    return mk("imul", a, b)


# ---------------------------------------------------------------- intervals
INF = float("inf")


class Env:
    """context for interval queries: the current path condition"""
    pc = 1


def rng(t, pc=1, depth=0):
    """interval of an integer term under path condition pc"""
    if t.op == "int":
        return t.a[0], t.a[0]
    if t.op == "bool":
        return 0, 1
    if t.op == "ite":
        if depth > 12:
            return _leaf_rng(t)
        c = t.a[0]
        p1, p2 = bdd.AND(pc, c), bdd.AND(pc, bdd.NOT(c))
        if p1 == 0:
            return rng(t.a[2], p2, depth + 1)
        if p2 == 0:
            return rng(t.a[1], p1, depth + 1)
        l1, h1 = rng(t.a[1], p1, depth + 1)
        l2, h2 = rng(t.a[2], p2, depth + 1)
        return min(l1, l2), max(h1, h2)
    if t.op == "lin":
        lo = hi = t.a[0]
        for x, k in t.a[1]:
            l, h = rng(x, pc, depth + 1)
            if k < 0:
                l, h = h, l
            lo = lo + k * l
            hi = hi + k * h
        # the whole combination may be bounded by an atom of its own
        P, c = t, t.a[0]
        P = mk_lin(0, dict(t.a[1]))
        sgn = 1
        if P.op == "lin" and P.a[1][0][1] < 0:
            P = mulc(P, -1)
            sgn = -1
        l, h = _atom_bounds(P, pc)
        if sgn < 0:
            l, h = -h, -l
        return max(lo, l + c), min(hi, h + c)
    lo, hi = _own_rng(t, pc, depth)
    l, h = _atom_bounds(t, pc)
    return max(lo, l), min(hi, h)


_lr = {}


def _leaf_rng(t):
    """interval of the alternatives of a deeply nested choice, whatever the conditions"""
    if t.op == "int":
        return t.a[0], t.a[0]
    if t.op != "ite":
        return _own_rng(t, 1, 13)
    r = _lr.get(t)
    if r is None:
        a, b = _leaf_rng(t.a[1]), _leaf_rng(t.a[2])
        r = _lr[t] = min(a[0], b[0]), max(a[1], b[1])
    return r


def _own_rng(t, pc, depth):
    o = t.op
    if o == "sym":
        lo, hi = t.a[2], t.a[3]
        return (-INF if lo is None else lo), (INF if hi is None else hi)
    if o == "ch":
        return -128, 127
    if o == "slen":
        return 0, (t.a[0].a[1] if t.a[0].op == "L" else INF)
    if o == "strlen":
        n = 0
        if isinstance(t.a[0], Term) and t.a[0].op == "str":
            for p in t.a[0].a:               # the least length its parts can have
                n += len(p[1]) if p[0] == "lit" else 1 if p[0] in ("chr", "num") else 0
        return n, (INF if t.a[1] is None else t.a[1])
    if o == "nconv":
        return 0, INF
    if o == "strch":
        return -128, 127
    if o == "zext":
        return 0, (1 << t.a[1]) - 1
    if o == "trunc":
        w = t.a[1]
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    if o == "imin":
        a, b = rng(t.a[0], pc, depth + 1), rng(t.a[1], pc, depth + 1)
        return min(a[0], b[0]), min(a[1], b[1])
    if o == "srem" and t.a[1].op == "int" and t.a[1].a[0] > 0:
        m = t.a[1].a[0] - 1
        l, h = rng(t.a[0], pc, depth + 1)
        return (0 if l >= 0 else -m), (m if h >= 0 else 0)
    if o == "sdiv" and t.a[1].op == "int" and t.a[1].a[0] > 0:
        k = t.a[1].a[0]
        l, h = rng(t.a[0], pc, depth + 1)
        return (l if abs(l) == INF else int(math.trunc(l / k)),
                h if abs(h) == INF else int(math.trunc(h / k)))
    if o == "and" and t.a[1].op == "int" and t.a[1].a[0] >= 0:
        return 0, t.a[1].a[0]
    if o == "imul":
        (a, b), (c, d) = rng(t.a[0], pc, depth + 1), rng(t.a[1], pc, depth + 1)
        if a >= 0 and c >= 0:
            return a * c, (b * d if b != INF and d != INF else INF)
        return -INF, INF
    if o == "fptosi" or o == "fptoui":
        return -INF, INF
    return -INF, INF


def _atom_bounds(P, pc):
    lo, hi = -INF, INF
    for v in bdd.by_key.get(P, ()):
        a = bdd.atoms[v]
        n = bdd.node(v, 0, 1)
        if pc == 1:
            continue
        if bdd.implies(pc, n):
            if a.op == "eq":
                lo, hi = max(lo, a.a[1]), min(hi, a.a[1])
            elif a.op == "le":
                hi = min(hi, a.a[1])
        elif bdd.AND(pc, n) == 0:
            if a.op == "le":
                lo = max(lo, a.a[1] + 1)
    # sharpen by excluded end points
    if lo != -INF or hi != INF:
        ch = True
        while ch:
            ch = False
            for v in bdd.by_key.get(P, ()):
                a = bdd.atoms[v]
                if a.op == "eq" and (a.a[1] == lo or a.a[1] == hi) and lo <= hi:
                    if bdd.AND(pc, bdd.node(v, 0, 1)) == 0:
                        if a.a[1] == lo:
                            lo += 1
                        else:
                            hi -= 1
                        ch = True
    return lo, hi


def infeasible(pc):
    """the integer bounds implied by pc contradict each other"""
    if pc == 0:
        return True
    keys = set()
    for v in bdd.support(pc):
        k = atom_key(bdd.atoms[v])
        if k is not None and not isinstance(k, tuple):
            keys.add(k)
    for k in keys:
        lo, hi = _atom_bounds(k, pc)
        l2, h2 = _own_rng(k, pc, 0) if k.op != "lin" else (-INF, INF)
        lo, hi = max(lo, l2), min(hi, h2)
        if hi - lo < 4096:
            ex = {bdd.atoms[v].a[1] for v in bdd.by_key.get(k, ()) if bdd.atoms[v].op == "eq"
                  and bdd.AND(pc, bdd.node(v, 0, 1)) == 0}
            while lo in ex and lo <= hi:
                lo += 1
        if lo > hi:
            return True
    return _text_contradiction(keys, pc) or _eq_contradiction(pc)


def _text_contradiction(keys, pc):
    """the length of a text is the position of its first NUL"""
    texts = {}
    for k in keys:
        if k.op == "ch" and k.a[1].op == "int" and k.a[0].op == "L":
            texts.setdefault(k.a[0], {})[k.a[1].a[0]] = k
    for L, cs in texts.items():
        n = mk("slen", L)
        lo, hi = rng(n, pc)
        for i in sorted(cs):
            l, h = rng(cs[i], pc)
            if l == h == 0:
                if i < lo:
                    return True
                hi = min(hi, i)
            elif i == lo and (l > 0 or h < 0 or any(
                    bdd.atoms[v].op == "eq" and bdd.atoms[v].a[1] == 0 and bdd.AND(pc, bdd.node(v, 0, 1)) == 0
                    for v in bdd.by_key.get(cs[i], ()))):
                lo += 1
        if lo > hi:
            return True
    return False


def _eq_contradiction(pc):
    """equalities between pairs of values contradict an inequality (transitivity)"""
    pos, neg = [], []
    for v in bdd.support(pc):
        a = bdd.atoms[v]
        if a.op == "eq" and a.a[0].op == "lin" and len(a.a[0].a[1]) == 2 and a.a[0].a[0] == 0:
            (x, k), (y, m) = a.a[0].a[1]
            if k != -m or abs(k) != 1:
                continue
            e = (x, y, a.a[1] * k)          # x - y = c
        elif a.op == "fcmp" and a.a[0] == "oeq":
            e = (("f", a.a[1]), ("f", a.a[2]), 0)
        else:
            continue
        n = bdd.node(v, 0, 1)
        if bdd.implies(pc, n):
            pos.append(e)
        elif bdd.AND(pc, n) == 0:
            neg.append(e)
    if not pos:
        return False
    par = {}

    def find(x):
        d = 0
        while x in par:
            x, k = par[x]
            d += k
        return x, d
    for x, y, c in pos:
        (rx, dx), (ry, dy) = find(x), find(y)
        if rx is ry or rx == ry:
            if dx - dy != c:
                return True
        else:
            par[rx] = (ry, c - dx + dy)     # rx = ry + (c - dx + dy)
    for x, y, c in neg:
        (rx, dx), (ry, dy) = find(x), find(y)
        if rx == ry and dx - dy == c:
            return True
    # values that are equal share their bounds and the values they exclude
    box = {}
    for x in {z for e in pos for z in e[:2] if isinstance(z, Term)}:
        root, d = find(x)                   # x = root + d
        lo, hi = rng(x, pc)
        b = box.setdefault(root, [-INF, INF, set()])
        b[0], b[1] = max(b[0], lo - d), min(b[1], hi - d)
        for v in bdd.by_key.get(x, ()):
            if bdd.atoms[v].op == "eq" and bdd.AND(pc, bdd.node(v, 0, 1)) == 0:
                b[2].add(bdd.atoms[v].a[1] - d)
    for lo, hi, ex in box.values():
        if hi - lo < 4096:
            while lo in ex and lo <= hi:
                lo += 1
        if lo > hi:
            return True
    return False


def implied(atom, val):
    """literals over already known atoms that follow from atom==val"""
    f = 1
    if atom.op in ("le", "eq"):
        P, c = atom.a
        for v in bdd.by_key.get(P, ()):
            b = bdd.atoms[v]
            if b is atom:
                continue
            d = b.a[1]
            r = None
            if atom.op == "le" and val:         # P <= c
                if b.op == "le" and d >= c:
                    r = True
                elif b.op == "eq" and d > c:
                    r = False
            elif atom.op == "le":               # P >= c+1
                if b.op == "le" and d <= c:
                    r = False
                elif b.op == "eq" and d <= c:
                    r = False
            elif val:                           # P == c
                r = (c <= d) if b.op == "le" else (c == d)
            if r is not None:
                n = bdd.node(v, 0, 1)
                f = bdd.AND(f, n if r else bdd.NOT(n))
    elif atom.op == "fcmp" and atom_key(atom) is not None:
        pred, x, k = atom.a
        for v in bdd.by_key.get(("f", x), ()):
            b = bdd.atoms[v]
            if b is atom:
                continue
            r = None
            kv, bv = k.a[0], b.a[2].a[0]
            if pred == "oeq" and val:
                r = _fc(b.a[0], kv, bv)
            elif val:
                # x < kv / x <= kv / x > kv / x >= kv
                if pred in ("olt", "ole") and b.a[0] in ("olt", "ole") and (
                        kv < bv or (kv == bv and (pred == "olt" or b.a[0] == "ole"))):
                    r = True
                elif pred in ("ogt", "oge") and b.a[0] in ("ogt", "oge") and (
                        kv > bv or (kv == bv and (pred == "ogt" or b.a[0] == "oge"))):
                    r = True
                elif pred in ("olt", "ole") and b.a[0] in ("ogt", "oge") and (
                        kv < bv or (kv == bv and not (pred == "ole" and b.a[0] == "oge"))):
                    r = False
                elif pred in ("ogt", "oge") and b.a[0] in ("olt", "ole") and (
                        kv > bv or (kv == bv and not (pred == "oge" and b.a[0] == "ole"))):
                    r = False
                elif b.a[0] == "oeq":
                    if not _fc(pred, bv, kv):
                        r = False
            if r is not None:
                n = bdd.node(v, 0, 1)
                f = bdd.AND(f, n if r else bdd.NOT(n))
    return f


def _fc(pred, x, y):
    return {"olt": x < y, "ole": x <= y, "oeq": x == y,
            "ogt": x > y, "oge": x >= y}[pred]


def assume(pc, f):
    """pc & f with the literals implied among related atoms (f: bdd)"""
    r = bdd.AND(pc, f)
    if r == 0 or f <= 1:
        return r
    # apply implied literals for the decisive atoms of f only
    sup = bdd.support(f)
    if len(sup) == 1:
        v = next(iter(sup))
        val = bdd.nodes[f][2] == 1
        return bdd.AND(r, implied(bdd.atoms[v], val))
    for v in sup:
        n = bdd.node(v, 0, 1)
        if bdd.implies(r, n):
            r = bdd.AND(r, implied(bdd.atoms[v], True))
        elif bdd.AND(r, n) == 0:
            r = bdd.AND(r, implied(bdd.atoms[v], False))
        if r == 0:
            return 0
    # drop cubes that combine contradictory literals
    return prune(r, sup)


def prune(r, sup):
    for v in sup:
        a = bdd.atoms[v]
        if atom_key(a) is None or len(bdd.by_key.get(atom_key(a), ())) < 2:
            continue
        n = bdd.node(v, 0, 1)
        c1 = bdd.ite(n, implied(a, True), implied(a, False))
        r = bdd.AND(r, c1)
        if r == 0:
            return 0
    return r


# ---------------------------------------------------------------- compare
def _gcd_norm(P, c, op):
    """P <= c or P == c with P const-free, leading coef > 0"""
    d = dict(P.a[1]) if P.op == "lin" else {P: 1}
    g = 0
    for v in d.values():
        g = math.gcd(g, abs(v))
    if g > 1:
        if op == "eq":
            if c % g:
                return None
            return mk_lin(0, {k: v // g for k, v in d.items()}), c // g
        return mk_lin(0, {k: v // g for k, v in d.items()}), c // g  # floor
    return P, c


def cmp_le0(t, pc=1):
    """bdd for t <= 0"""
    if t.op == "int":
        return 1 if t.a[0] <= 0 else 0
    lo, hi = rng(t, pc)
    if hi <= 0:
        return 1
    if lo > 0:
        return 0
    c, d = lin_parts(t)
    P = mk_lin(0, d)
    lead = P.a[1][0][1] if P.op == "lin" else 1
    if lead > 0:                        # P <= -c
        P, k = _gcd_norm(P, -c, "le")
        return bdd.var(mk("le", P, k))
    Q = mulc(P, -1)                     # -Q <= -c  <=> Q >= c <=> !(Q <= c-1)
    Q, k = _gcd_norm(Q, c - 1, "le")
    return bdd.NOT(bdd.var(mk("le", Q, k)))


def cmp_eq0(t, pc=1):
    if t.op == "int":
        return 1 if t.a[0] == 0 else 0
    lo, hi = rng(t, pc)
    if lo > 0 or hi < 0:
        return 0
    if lo == hi == 0:
        return 1
    if t.op == "ite" and nleaves(t, 1024) < 1024:
        r = lift(lambda x: UNDEF if x.op == "undef" else Bv(cmp_eq0(x, pc)), t)
        if r is not None and r.op == "bool":
            return r.a[0]
    c, d = lin_parts(t)
    P = mk_lin(0, d)
    lead = P.a[1][0][1] if P.op == "lin" else 1
    if lead < 0:
        P, c = mulc(P, -1), -c
    n = _gcd_norm(P, -c, "eq")
    if n is None:
        return 0
    return bdd.var(mk("eq", n[0], n[1]))


def as_int(t):
    return ite(t.a[0], I(1), I(0)) if t.op == "bool" else t


def icmp(pred, a, b, pc=1):
    """-> bool Term"""
    a, b = as_int(a), as_int(b)
    if a.op == "undef" or b.op == "undef":
        return UNDEF
    pa = any(x.op == "ptr" for x in leaves(a)) if a.op in ("ptr", "ite") else False
    pb = any(x.op == "ptr" for x in leaves(b)) if b.op in ("ptr", "ite") else False
    if pa or pb:
        r = lift(lambda x, y: _pcmp(pred, x, y, pc), a, b)
        if r is not None:
            return r
        return Bv(bdd.var(mk("pcmp", pred, a, b)))
    if a.op == "ite" or b.op == "ite":
        if nleaves(a, 64) * nleaves(b, 64) <= 1024:
            r = lift(lambda x, y: icmp(pred, x, y, pc), a, b)
            if r is not None:
                return r
    if pred in ("ult", "ule", "ugt", "uge"):
        la, lb = rng(a, pc)[0], rng(b, pc)[0]
        if la >= 0 and lb >= 0:
            pred = "s" + pred[1:]
        else:
            if a.op == "int" and b.op == "int":
                x, y = a.a[0] % (1 << 64), b.a[0] % (1 << 64)
                return TRUE if {"ult": x < y, "ule": x <= y, "ugt": x > y,
                                "uge": x >= y}[pred] else FALSE
            if pred in ("ugt", "uge"):
                a, b = b, a
                pred = {"ugt": "ult", "uge": "ule"}[pred]
            # unsigned a < K (K>=0 constant): 0 <= a < K
            if b.op == "int" and b.a[0] >= 0:
                up = cmp_le0(add(sub(a, b), I(1 if pred == "ult" else 0)), pc)
                ge = bdd.NOT(cmp_le0(add(a, I(1)), pc))
                return Bv(bdd.AND(up, ge))
            return Bv(bdd.var(mk("ucmp", pred, a, b)))
    d = sub(a, b)
    if d.op == "undef":
        return UNDEF
    if pred == "eq":
        return Bv(cmp_eq0(d, pc))
    if pred == "ne":
        return Bv(bdd.NOT(cmp_eq0(d, pc)))
    if pred == "sle":
        return Bv(cmp_le0(d, pc))
    if pred == "slt":
        return Bv(cmp_le0(add(d, I(1)), pc))
    if pred == "sgt":
        return Bv(bdd.NOT(cmp_le0(d, pc)))
    if pred == "sge":
        return Bv(bdd.NOT(cmp_le0(add(d, I(1)), pc)))
    raise NotImplementedError(pred)


def _pcmp(pred, a, b, pc):
    if a.op == "int" and a.a[0] == 0:
        a = NULL
    if b.op == "int" and b.a[0] == 0:
        b = NULL
    if a.op == "ptr" and b.op == "ptr":
        if a.a[0] == b.a[0]:
            p = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred)
            return icmp(p, a.a[1], b.a[1], pc)
        if pred == "eq":
            return FALSE
        if pred == "ne":
            return TRUE
    if pred == "ne":
        return Bv(bdd.NOT(bdd.var(mk("pcmp", "eq", *sorted((a, b))))))
    if pred == "eq":
        return Bv(bdd.var(mk("pcmp", "eq", *sorted((a, b)))))
    return Bv(bdd.var(mk("pcmp", pred, a, b)))


_neg = {"ult": "oge", "ule": "ogt", "ugt": "ole", "uge": "olt", "une": "oeq"}
_swp = {"olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole", "oeq": "oeq"}


_comm = {}


def comm(t, depth=12):
    """the operands of sums and products in one order (both commute in floating point)"""
    if t.op not in ("fadd", "fmul", "fsub", "fdiv", "fneg") or depth == 0:
        return t
    r = _comm.get(t.id)
    if r is None:
        a = [comm(x, depth - 1) if isinstance(x, Term) else x for x in t.a]
        if t.op in ("fadd", "fmul") and a[1].id < a[0].id:
            a.reverse()
        r = _comm[t.id] = mk(t.op, *a)
    return r


def fcmp(pred, a, b, pc=1):
    if a.op == "undef" or b.op == "undef":
        return UNDEF
    a, b = comm(a), comm(b)
    if pred in _neg:
        r = fcmp(_neg[pred], a, b, pc)
        return r if r.op == "undef" else Bv(bdd.NOT(r.a[0]))
    if a.op == "ite" or b.op == "ite":
        if nleaves(a, 64) * nleaves(b, 64) <= 1024:
            r = lift(lambda x, y: fcmp(pred, x, y, pc), a, b)
            if r is not None:
                return r
    if pred == "one":
        e = fcmp("oeq", a, b, pc)
        return Bv(bdd.NOT(e.a[0]))
    if pred in ("ord", "uno"):
        r = Bv(bdd.var(mk("fcmp", "uno", a, b)))
        return r if pred == "uno" else Bv(bdd.NOT(r.a[0]))
    if a.op == "flt" and b.op == "flt":
        return TRUE if _fc(pred, a.a[0], b.a[0]) else FALSE
    for x, y in ((a, b), (b, a)):
        # a product with a constant of at least one is zero (has a sign) exactly when the other factor is (has)
        if y.op == "flt" and y.a[0] == 0 and x.op == "fmul":
            for u, v in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                if v.op == "flt" and 1 <= v.a[0] < 1e300:
                    return fcmp(pred, u, b, pc) if x is a else fcmp(pred, a, u, pc)
    if a.op == "flt" or (b.op != "flt" and (pred in ("ogt", "oge") or
                                             (pred == "oeq" and b.id < a.id))):
        a, b, pred = b, a, _swp[pred]
    return Bv(bdd.var(mk("fcmp", pred, a, b)))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, tuple):
        return "<" + " ".join(show(x, d + 1) for x in t) + ">"
    if not isinstance(t, Term):
        return str(t)
    if d > 9:
        return "..."
    o = t.op
    if o == "int":
        return str(t.a[0])
    if o == "flt":
        return repr(t.a[0])
    if o == "bool":
        return "[" + bdd.show(t.a[0], 4) + "]"
    if o == "sym":
        return str(t.a[0])
    if o == "L":
        return str(t.a[0])
    if o == "lin":
        s = " + ".join((("%d*" % k) if k != 1 else "") + show(x, d + 1) for x, k in t.a[1])
        return "(" + s + (" + %d" % t.a[0] if t.a[0] else "") + ")"
    if o == "ite":
        return "ite(%s, %s, %s)" % (bdd.show(t.a[0], 3), show(t.a[1], d + 1), show(t.a[2], d + 1))
    if o == "ptr":
        return "&%s+%s" % (t.a[0], show(t.a[1], d + 1))
    if o in ("le", "eq"):
        return "%s%s%d" % (show(t.a[0], d + 1), "<=" if o == "le" else "==", t.a[1])
    if o == "fcmp":
        return "%s %s %s" % (show(t.a[1], d + 1), t.a[0], show(t.a[2], d + 1))
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in t.a))
