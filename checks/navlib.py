"""Navigation-frame objects, reference formulas and the Kepler-equation rule."""
from common import *

D = r".*ggsa_driver::%s\(.*"


class Ex:
    """a value-flow term with arithmetic operators (to write formulas down)"""
    def __init__(self, t):
        self.t = t if isinstance(t, Term) else F(float(t))

    def _b(self, o, op, rev=False):
        o = o if isinstance(o, Ex) else Ex(o)
        a, b = (o, self) if rev else (self, o)
        return Ex(mk(op, a.t, b.t))

    def __add__(self, o): return self._b(o, "fadd")
    def __radd__(self, o): return self._b(o, "fadd", True)
    def __sub__(self, o): return self._b(o, "fsub")
    def __rsub__(self, o): return self._b(o, "fsub", True)
    def __mul__(self, o): return self._b(o, "fmul")
    def __rmul__(self, o): return self._b(o, "fmul", True)
    def __truediv__(self, o): return self._b(o, "fdiv")
    def __rtruediv__(self, o): return self._b(o, "fdiv", True)
    def __neg__(self): return Ex(F(0.0)) - self


def fn(name, *a):
    return Ex(mk("fn", name, *[x.t if isinstance(x, Ex) else x for x in a]))


def sin(x): return fn("sin", x)
def cos(x): return fn("cos", x)
def sqrt(x): return fn("sqrt", x)
def toreal(t): return Ex(mk("sitofp", t))


class Frame:
    """a navigation frame with symbolic contents, reached through its accessors"""
    def __init__(self, s, st, name, system=None):
        self.s, self.name = s, name
        self.p = s.obj(name, rec="ngpt::NavDataFrame")
        self.off_data = self._ref("d_nav_datar", st, I(0))
        self.off_sys = self._ref("d_nav_sysr", st)
        self.off_prn = self._ref("d_nav_prnr", st)
        if system is not None:
            self.put(st, self.off_sys, 1, system)

    def _ref(self, acc, st, *extra):
        rv = self.s.get(D % acc, [self.p] + list(extra), st)
        if rv is None or rv.op != "ptr" or rv.a[0] != self.name or rv.a[1].op != "int":
            raise AnchorError("%s does not return a reference into the frame" % acc)
        return rv.a[1].a[0]

    def put(self, st, off, size, v):
        self.s.ip.state = st
        st.mem[self.name] = self.s.ip.content(st, self.name).with_cell(off, size, v)

    def d(self, st, i):
        return Ex(self.s.load(st, self.p, self.off_data + 8 * i, 8, "double"))

    def date(self, st, which):
        """(day, seconds of day) of toc / toe, through the public getters"""
        s = self.s
        o = s.out(self.name + "." + which, 16, st=st)
        f = s.fn(r"ngpt::datetime<ngpt::seconds> ngpt::NavDataFrame::%s<ngpt::seconds(, void)?>\(\) const" % which)
        return date_of(s, f, [self.p], st)


def date_of(s, f, args, st):
    n = len(s.ip.log)
    st2 = st.copy()
    if len(f.args) == len(args) + 1:          # returned through memory
        o = s.out("ret." + f.name[-12:] + str(len(s.ip.objs)), 16, st=st2)
        rv, ns, ts = s.run(f, [o] + list(args), st2)
        r = (s.load(ns, o, 0, 8, "i64"), s.load(ns, o, 8, 8, "i64"))
    else:
        rv, ns, ts = s.run(f, args, st2)
        if rv is None:
            del s.ip.log[n:]
            return None, None
        r = (restrict_term(s.ip.agg_get(rv, 0), st.pc), restrict_term(s.ip.agg_get(rv, 1), st.pc))
    del s.ip.log[n:]
    return r


def epoch(s, st, name, day, sec):
    p = s.out(name, 16, st=st)
    st.mem[name] = st.mem[name].with_cell(0, 8, day).with_cell(8, 8, sec)
    return p


def near(a, b):
    """two terms are the same polynomial, up to the rounding of its constants"""
    a, b = (x.t if isinstance(x, Ex) else x for x in (a, b))
    return a is b or peq(nf(a), nf(b))


def negated(p):
    return {m: -k for m, k in p.items()}


class Kepler:
    """decides that a value W used by the code solves W - M - e sin W = 0 to within a
    tolerance whenever the function reports success"""
    TOLERANCE = 1e-12
    MINITER = 30

    def __init__(self, r, s, loops, ok, M, e):
        self.r, self.s, self.loops, self.ok, self.M, self.e = r, s, loops, ok, M, e

    def candidates(self):
        out = []
        for l in self.loops:
            for d in l["syms"].values():
                if d["sym"].op == "sym" and d["sym"].a[1] == "f":
                    out.append(d["sym"])
                    if d["next"] is not None:
                        out += [x for _, x in cases(d["next"], l["backpc"])][:3]
        return out

    def tolerance_literals(self, depth=0):
        """[(nf of X, c)] such that ok implies |X| <= c"""
        out = []
        for a in atoms_of(self.ok):
            if a.op != "fcmp" or a.a[0] not in ("ogt", "oge", "olt", "ole"):
                continue
            x, y = a.a[1], a.a[2]
            for val in (1, 0):
                v = bdd.var(a)
                if bdd.AND(self.ok, bdd.NOT(v) if val else v) != 0:
                    continue
                op = a.a[0]
                up = (op in ("olt", "ole")) == bool(val)     # x is at most y
                big, small = (y, x) if up else (x, y)        # small <= big
                if big.op == "flt" and small.op == "fn" and small.a[0] == "fabs":
                    out.append((nf(small.a[1]), big.a[0]))
        return out

    def residual_zero(self, P, Q):
        """P - M - e sin Q == 0 identically"""
        return near(P, self.M + self.e * sin(Ex(Q)))

    def inductive(self, l, P, Q):
        """P - M - e sin Q == 0 holds whenever control is at the loop head"""
        ds = {d["sym"]: d for d in l["syms"].values()}
        if P not in ds or Q not in ds:
            return False
        p, q = ds[P], ds[Q]
        if p["next"] is None or q["next"] is None:
            return False
        if not self.residual_zero(p["init"], q["init"]):
            return False
        for c, x in cases(p["next"], l["backpc"]):
            for c2, y in cases(q["next"], c):
                if not self.residual_zero(x, y):
                    return False
        return True

    def newton(self, l, P, Dl):
        """head invariant: D is the last Newton correction and P was corrected by it"""
        ds = {d["sym"]: d for d in l["syms"].values()}
        if P not in ds or Dl not in ds or ds[P]["next"] is None or ds[Dl]["next"] is None:
            return False
        step = (Ex(P) - self.e * sin(Ex(P)) - self.M) / (1 - self.e * cos(Ex(P)))
        for sg in (1, -1):
            if near(ds[Dl]["next"], sg * step) and near(ds[P]["next"], Ex(P) - step):
                i = ds[Dl]["init"]
                return i.op == "flt" and abs(i.a[0]) > self.TOLERANCE
        return False

    def solves(self, W):
        """reason why W solves the equation, or None"""
        w = nf(W)
        for X, c in self.tolerance_literals():
            if not (0 < c <= self.TOLERANCE):
                continue
            res = nf((Ex(W) - self.M - self.e * sin(Ex(W))).t)
            if peq(res, X) or peq(res, negated(X)):
                return "residual bounded by %g" % c
            for Q in self.candidates():
                d = nf(mk("fsub", W, Q))
                if d and (peq(d, X) or peq(d, negated(X))):
                    if self.residual_zero(W, Q) or self.residual_zero(Q, W):
                        return "fixed-point step, |W-Q| <= %g" % c
                    for l in self.loops:
                        if self.inductive(l, W, Q) or self.inductive(l, Q, W):
                            return "inductive fixed-point iteration, |W-Q| <= %g" % c
                if X == nf(Q):
                    for l in self.loops:
                        if self.newton(l, W, Q):
                            return "Newton iteration, last correction <= %g" % c
        return None

    def early(self, fail):
        """the part of `fail` that can hold before some loop has made MINITER rounds"""
        for l in self.loops:
            for d in l["syms"].values():
                if d["sym"].op == "sym" and d["sym"].a[1] == "i" and d["next"] is not None:
                    ns = [sub(x, d["sym"]) for _, x in cases(d["next"])]
                    if all(n.op == "int" and n.a[0] <= 1 for n in ns) and d["init"].op == "int":
                        fail = assume(fail, truth(icmp("slt", d["sym"], I(d["init"].a[0] + self.MINITER))))
        out = 0
        for p in bdd.paths(fail):
            c = 1
            for a, val in p:
                c = bdd.AND(c, bdd.var(a) if val else bdd.NOT(bdd.var(a)))
            if not infeasible(c):
                out = bdd.OR(out, c)
        return out


def atoms_of(f):
    return [bdd.atoms[v] for v in sorted(bdd.support(f))]


HALFWEEK = 302400.0


def outside(f, t):
    """disjunction of the literals of f that say |t| exceeds half a week"""
    n = nf(t)
    neg = {m: -k for m, k in n.items()}
    out = 0
    for a in atoms_of(f):
        if a.op != "fcmp" or a.a[0] not in ("olt", "ole", "ogt", "oge"):
            continue
        for x, y, flip in ((a.a[1], a.a[2], 0), (a.a[2], a.a[1], 1)):
            if y.op != "flt":
                continue
            c = y.a[0]
            less = (a.a[0] in ("olt", "ole")) != bool(flip)       # x < c when the atom is true
            v = bdd.var(a)
            cand = []
            if x.op == "fn" and x.a[0] == "fabs":
                p = nf(x.a[1])
                if (peq(p, n) or peq(p, neg)) and c >= HALFWEEK:
                    cand.append(bdd.NOT(v) if less else v)
            else:
                p = nf(x)
                if peq(p, neg):
                    c, less, p = -c, not less, n
                if peq(p, n):
                    if c >= HALFWEEK:
                        cand.append(bdd.NOT(v) if less else v)
                    elif c <= -HALFWEEK:
                        cand.append(v if less else bdd.NOT(v))
            for l in cand:
                out = bdd.OR(out, l)
    return out


KEPLER = {          # IS-GPS-200 20.3.3.4.3 / Galileo OS SIS ICD 5.1.1 / BDS-SIS-ICD 5.2.4.12
    "gps": dict(mi=3.986005e14, om=7.2921151467e-5, F=-4.442807633e-10),
    "galileo": dict(mi=3.986004418e14, om=7.2921151467e-5, F=-4.442807309e-10),
    "beidou": dict(mi=3.986004418e14, om=7.2921150e-5, F=-2.0 * (3.986004418e14 ** 0.5) / (299792458.0 ** 2)),
}


def mean_anomaly(K, d, tk):
    A = d(10) * d(10)
    n = sqrt(Ex(K["mi"]) / (A * A * A)) + d(5)
    return d(6) + n * tk


def orbit(K, d, tk, E):
    """ECEF position from the broadcast elements and the eccentric anomaly"""
    e, A, om = d(8), d(10) * d(10), K["om"]
    den = 1 - e * cos(E)
    vk = fn("atan2", (sqrt(1 - e * e) * sin(E)) / den, (cos(E) - e) / den)
    F_ = vk + d(17)
    s2, c2 = sin(2 * F_), cos(2 * F_)
    u = F_ + (d(9) * s2 + d(7) * c2)
    rr = A * (1 - e * cos(E)) + (d(4) * s2 + d(16) * c2)
    i = d(15) + (d(14) * s2 + d(12) * c2) + d(19) * tk
    O = d(13) + (d(18) - om) * tk - om * d(11)
    x, y = rr * cos(u), rr * sin(u)
    return (x * cos(O) - y * sin(O) * cos(i), x * sin(O) + y * cos(O) * cos(i), y * sin(i))


def clock(K, d, dt, E):
    return d(0) + d(1) * dt + d(2) * dt * dt + K["F"] * (d(8) * d(10) * sin(E))


def broadcast_runs(r, systems, types=("seconds", "milliseconds"), toc_days=(True, False)):
    """one interpretation of the public state-and-clock function per configuration,
    system, time resolution and day relation between the epoch and the two references"""
    for cfg in ("debug", "prod"):
        for typ in types:
            for n in systems:
                for same_e in (True, False):
                    for same_c in toc_days:
                        s = r.session(cfg)
                        E = s.satsys()
                        st = State()
                        fr = Frame(s, st, "frame", I(E[n]))
                        day, sec = sym("epoch.day", "i", 0, 1 << 20), sym("epoch.sec", "i", 0, 86400000)
                        toe, toc = fr.date(st, "toe"), fr.date(st, "toc")
                        # the two day numbers: equal to the epoch's, or different from it
                        for (dd, _), same in ((toe, same_e), (toc, same_c)):
                            if same:
                                loc = _where(s, fr, st, dd)
                                fr.put(st, loc, 8, day)
                            else:
                                st.pc = assume(st.pc, bdd.NOT(cmp_eq0(sub(day, dd))))
                        toe, toc = fr.date(st, "toe"), fr.date(st, "toc")
                        ep = epoch(s, st, "epoch", day, sec)
                        xyz, dt = s.out("xyz", 48, st=st), s.out("dt", 8, st=st)
                        f = s.fn(r"int ngpt::NavDataFrame::stateNclock<ngpt::%s(, void)?>\(.*\) const" % typ)
                        mark = len(s.ip.loops)
                        rv, ns, ts = s.run(f, [fr.p, ep, xyz, dt], st)
                        t = toreal(sec) if typ == "seconds" else toreal(sec) / 1000.0

                        def el(ref):
                            return t + 86400.0 * toreal(sub(day, ref[0])) - toreal(ref[1])
                        d0 = ns or st
                        yield dict(s=s, cfg=cfg, typ=typ, n=n, fr=fr, st0=st, rv=rv, ns=ns, ts=ts, f=f,
                                   tk=el(toe), dt=el(toc), toe=toe, toc=toc, t=t, day=day, sec=sec,
                                   loops=s.ip.loops[mark:], xyz=xyz, clk=dt, mark=mark,
                                   tag="%s %s, epoch in %s, ToE %s day, ToC %s day" % (
                                       cfg, n, typ, "same" if same_e else "other", "same" if same_c else "other"))


def _where(s, fr, st, term):
    """offset in the frame where a date component is stored"""
    for off in range(0, s.rec_size("ngpt::NavDataFrame") - 7, 8):
        if s.load(st, fr.p, off, 8, "i64") is term:
            return off
    raise AnchorError("date component %s is not stored in the frame" % show(term))
