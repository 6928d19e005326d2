"""P08: GLONASS states are integrated from the message to the requested epoch."""
from navlib import *
from ggsa import lra, sample
from ggsa.lra import le, lt, minus, neg
from ggsa.nf import inner_ite, deep_restrict, NF

# GLONASS ICD (2016), appendix J, table J.1 / PZ-90.11
MU, AE, J2, OM = 398600441.8e6, 6378136.0, 1082625.75e-9, 7.2921151467e-5
LIMIT, STEP = 900.0, 60.0


def force(x, acc):
    """simplified equations of motion in the rotating frame"""
    r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]
    r = sqrt(r2)
    a = (1.5 * J2 * MU * AE * AE) / (r2 * r2 * r)
    b = 5.0 * x[2] * x[2] / r2
    c = (Ex(0.0) - MU) / (r2 * r) - a * (1.0 - b)
    return [x[3], x[4], x[5],
            (c + OM * OM) * x[0] + 2 * OM * x[4] + acc[0],
            (c + OM * OM) * x[1] - 2 * OM * x[3] + acc[1],
            (c - 2.0 * a) * x[2] + acc[2]]


def dcases(t, pc):
    """[(condition, term without any choice)]"""
    t = deep_restrict(t, pc)
    c = inner_ite(t)
    if c is None:
        return [(pc, t)]
    while c > 1:
        i, lo, hi = bdd.nodes[c]
        v = bdd.node(i, 0, 1)
        if bdd.implies(pc, v):
            c = hi
        elif bdd.AND(pc, v) == 0:
            c = lo
        else:
            break
    out = []
    for q in (assume(pc, v), assume(pc, bdd.NOT(v))):
        if q and not infeasible(q):
            out += dcases(t, q)
    return out


class Rewrite:
    """bottom-up replacement in float terms: by identity or by normal form"""
    def __init__(self, rule):
        self.rule, self.memo = rule, {}

    def __call__(self, t):
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            ch = [y for y in x.a if isinstance(y, Term)] if x.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fn") else []
            todo = [y for y in ch if y not in self.memo]
            if todo:
                stack += todo
                continue
            if ch:
                n = mk(x.op, *[self.memo[y] if isinstance(y, Term) else y for y in x.a])
            else:
                n = x
            self.memo[x] = self.rule(n) or n
            stack.pop()
        return self.memo[t]


def close(facts):
    """round(x) is zero where |x| < 1/2"""
    facts = list(facts)
    for i in {a for p, _ in facts for m in p for a, e in m}:
        k = NF._list[i]
        if k[0] == "fn" and k[1] == "round":
            x = lra.unkey(k[2])
            h = {(): Fraction(1, 2)}
            if lra.implies(facts, lt(x, h)) and lra.implies(facts, lt(neg(x), h)):
                a = {((i, Fraction(1)),): Fraction(1)}
                facts += [le(a), le(neg(a))]
    return facts


class Integrator:
    """the loop that carries six state components and a time"""
    def __init__(self, l, ys, data, acc, tk, ok):
        self.l, self.ys, self.acc, self.tk, self.ok = l, ys, acc, tk, ok
        self.ds = {d["sym"]: d for d in l["syms"].values()}
        self.fl = [d for d in l["syms"].values() if d["sym"].op == "sym" and d["sym"].a[1] == "f" and d["next"] is not None
                   and d["init"].op != "undef"]
        self.data = data

    def zero_round(self, t):
        """round(x) -> 0 for x = k tk with |k| * 900 < 1/2"""
        n = nf(self.tk.t)

        def rule(x):
            if x.op == "fn" and x.a[0] == "round":
                p = nf(x.a[1])
                m = next(iter(n))
                if m in p:
                    k = p[m] / n[m]
                    if abs(k) * Fraction(LIMIT) < Fraction(1, 2) and peq(p, {y: c * k for y, c in n.items()}):
                        return F(0.0)
            return None
        return Rewrite(rule)(t)

    def time_candidates(self):
        for d in self.fl:
            if d["sym"] not in self.ys and not any(x.op == "undef" for x in leaves(d["next"])):
                yield d

    def invariants(self, tau, T, entry):
        """linear facts over the loop's symbols that hold at the loop head on every round (Houdini)"""
        cand = []
        for d in self.fl:
            if d["sym"] in self.ys:
                continue
            v = nf(d["sym"])
            nx = d["next"]
            if any(x.op == "undef" for x in leaves(nx)):
                continue
            cand += [(d, "%s >= 0", lambda p: le(neg(p))), (d, "%s <= 0", lambda p: le(p)),
                     (d, "%s > 0", lambda p: lt(neg(p))), (d, "%s < 0", lambda p: lt(p)),
                     (d, "%s <= 60", lambda p: le(p, {(): Fraction(60)})), (d, "%s >= -60", lambda p: le(neg(p), {(): Fraction(60)})),
                     (d, "%s <= target", lambda p: le(p, T)), (d, "%s >= target", lambda p: le(T, p))]
        base = close(entry)
        keep = [c for c in cand if all(
            lra.implies(close(base + lra.cube_facts(cu)), c[2](nf(x)))
            for q, x in dcases(self.zero_round(c[0]["init"]), self.l["pc"]) for cu in lra.cubes(q))]
        # one round
        rounds = []
        back = self.l["backpc"]
        for cube in lra.cubes(back):
            b = 1
            for a, v in cube:
                b = bdd.AND(b, bdd.var(a) if v else bdd.NOT(bdd.var(a)))
            if not infeasible(b):
                rounds.append((b, close(lra.cube_facts(cube) + list(entry))))
        while True:
            inv = [c[2](nf(c[0]["sym"])) for c in keep]
            new = []
            for c in keep:
                good = True
                for b, fs in rounds:
                    for q, x in dcases(c[0]["next"], b):
                        g = fs + inv + [f for cu in lra.cubes(q)[:1] for f in lra.cube_facts(cu)]
                        g = close(g)
                        if not lra.implies(g, c[2](nf(x))):
                            good = False
                            break
                    if not good:
                        break
                if good:
                    new.append(c)
            if len(new) == len(keep):
                return keep, inv
            keep = new

    def rk4(self, h, got):
        """components of `got` that differ from one fourth-order Runge-Kutta step of length h"""
        y = [Ex(v) for v in self.ys]
        H = Ex(sym("h#", "f"))
        acc = [Ex(a) for a in self.acc]
        hn = nf(h)
        targets = [(hn, H.t), (neg(hn), (Ex(0.0) - H).t)]
        if not [m for m in hn if m]:            # a constant step
            H, targets = Ex(float(hn.get((), 0))), []
        k1 = force(y, acc)
        us = []
        stages = [(0, H.t, h)] if H.t.op == "sym" else []
        ks = [k1]
        for n, fac in ((1, 0.5), (2, 0.5), (3, 1.0)):
            u = [Ex(sym("u%d.%d#" % (n, i), "f")) for i in range(6)]
            us.append(u)
            for i in range(6):
                q = (y[i] + fac * H * ks[-1][i]).t
                targets.append((nf(q), u[i].t))
                stages.append((0, u[i].t, q))
            ks.append(force(u, acc))
        want = [nf((y[i] + H / 6.0 * (ks[0][i] + 2 * ks[1][i] + 2 * ks[2][i] + ks[3][i])).t) for i in range(6)]
        index = {}
        for p, v in targets:
            index.setdefault(frozenset(p.keys()), []).append((p, v))
        cut_ = {}

        def rule(x):
            if x.op not in ("fadd", "fsub", "fmul", "fdiv", "fneg", "sym"):
                return None
            p = nf(x)
            if len(p) > 200:
                raise NotNumeric("expression too large")
            for q, v in index.get(frozenset(p.keys()), ()):
                if peq(p, q):
                    return v
            return None
        rw = Rewrite(rule)
        bad = []
        ref = [(y[i] + H / 6.0 * (ks[0][i] + 2 * ks[1][i] + 2 * ks[2][i] + ks[3][i])).t for i in range(6)]
        for i in range(6):
            g = self.zero_round(got[i])
            try:
                if not peq(nf(rw(g)), want[i]):
                    bad.append(i)
            except NotNumeric:
                # some stage is not the scheme's: confirm on the whole step
                back = {v: q for _, v, q in stages}
                full = Rewrite(lambda x: back.get(x))
                w = ref[i]
                for _ in range(4):
                    w = full(w)
                if not sample.differ(g, w):
                    raise
                bad.append(i)
        return bad


from fractions import Fraction   # noqa: E402
NAMES = ["x", "y", "z", "vx", "vy", "vz"]
SRC = [3, 7, 11, 4, 8, 12]


def check():
    r = Report("P08")
    for c in broadcast_runs(r, ("glonass",), toc_days=(False,)):
        one(r, c)
    return r.finish(
        "proof", "gated value-flow over LLVM IR; linear (polyhedral) loop invariants; polynomial normal forms",
        "with status zero the epoch is within 15 minutes of the reference, the state is the message's at the reference epoch and "
        "otherwise the result of Runge-Kutta-4 steps of the ICD's simplified equations, of at most 60 s each, whose times add up to the "
        "requested epoch; the clock is a0 + a1 dt",
        "one symbolic round of the integration loop is compared with the RK4 scheme by cutting at its stages; the time carried by the loop "
        "is shown to end at the requested epoch by linear invariants at the loop head",
        minimum=40, assumptions=["real arithmetic (no rounding)", "comparisons involving NaN are not considered"])


def one(r, c):
    s, ns, rv, tag = c["s"], c["ns"], c["rv"], c["tag"]
    loc = "src/glonav.cpp"
    ok = bdd.AND(ns.pc, cmp_eq0(rv))
    fail = bdd.AND(ns.pc, bdd.NOT(cmp_eq0(rv)))
    d = lambda i: c["fr"].d(c["st0"], i)
    tk = c["tk"]
    n = nf(tk.t)
    lim = {(): Fraction(LIMIT)}
    r.ob(tag + ": no exception", c["ts"] is None or c["ts"].pc == 0, "an exception escapes", loc)
    bad = [cu for cu in lra.cubes(ok) if not (lra.implies(lra.cube_facts(cu), le(n, lim)) and lra.implies(lra.cube_facts(cu), le(neg(n), lim)))]
    r.ob(tag + ": success only within 15 minutes", not bad, "status 0 is returned beyond 15 minutes", loc)
    rest = 0
    for cu in lra.cubes(fail):
        if not lra.contradictory(lra.cube_facts(cu) + [le(n, lim), le(neg(n), lim)]):
            q = 1
            for a, v in cu:
                q = bdd.AND(q, bdd.var(a) if v else bdd.NOT(bdd.var(a)))
            rest = bdd.OR(rest, q)
    early = Kepler(r, s, c["loops"], ok, None, None).early(rest)
    r.ob(tag + ": within 15 minutes, failure is only reported after 30 steps", early == 0,
         "a status other than zero can be returned when %s" % cut(bdd.show(early, 2)), loc)
    # clock
    got = under(s.load(ns, c["clk"], 0, 8, "double"), ok)
    z = Integrator.zero_round
    want = d(0) + d(1) * tk

    class _T:
        pass
    h = _T()
    h.tk = tk
    vals = []
    for q, x in dcases(got, ok):
        vals.append(x.op != "undef" and peq(nf(z(h, x)), nf(want.t)))
    r.ob(tag + ": clock correction", bool(vals) and all(vals), "clock is %s, specified %s" % (cut(show(got)), cut(show(want.t))), loc)
    # state
    state = [under(s.load(ns, c["xyz"], 8 * i, 8, "double"), ok) for i in range(6)]
    data = [d(i) for i in SRC]
    acc = [d(i).t for i in (5, 9, 13)]
    if any(x.op == "undef" for g in state for x in leaves(g)):
        return r.ob(tag + ": state is set", False, "a state component is not written on success", loc)
    ini = 0
    for q, x in dcases(state[0], ok):
        if x is data[0].t:
            ini = bdd.OR(ini, q)
    for i in range(6):
        for cu in lra.cubes(ini):
            pass
    eq0 = all(lra.implies(lra.cube_facts(cu), le(n)) and lra.implies(lra.cube_facts(cu), le(neg(n))) for cu in lra.cubes(ini))
    r.ob(tag + ": message state only at the reference epoch", eq0, "the message's state is returned for another epoch", loc)
    for i in range(6):
        r.same("%s: %s at the reference epoch" % (tag, NAMES[i]), state[i], data[i].t, ini, NAMES[i], loc)
    run = bdd.AND(ok, bdd.NOT(ini))
    if run == 0:
        return r.error(tag + ": no integration was found")
    leafs = [dcases(g, run) for g in state]
    ys = []
    for i, lf in enumerate(leafs):
        xs = {x for _, x in lf}
        if len(xs) != 1 or next(iter(xs)).op != "sym":
            return r.ob(tag + ": state comes from the integration loop", False, "%s is %s" % (NAMES[i], cut(show(lf[0][1]))), loc)
        ys.append(next(iter(xs)))
    ls = [l for l in c["loops"] if all(y in {q["sym"] for q in l["syms"].values()} for y in ys)]
    if not ls:
        return r.error(tag + ": the six state components are not carried by one loop")
    it = Integrator(ls[-1], ys, data, acc, tk, ok)
    for i in range(6):
        r.same("%s: %s starts from the message" % (tag, NAMES[i]), it.ds[ys[i]]["init"], data[i].t, 1, NAMES[i], loc)
    # the time the loop carries
    best = None
    for dt in it.time_candidates():
        for sigma in (1, -1):        # counted up to the epoch, or down to it
            T = lra.padd(nf(it.zero_round(dt["init"])), n, sigma)
            res = timing(r, c, it, dt, T, run)
            if best is None or sum(res.values()) > sum(best[0].values()):
                best = (res, dt, sigma)
    if best is None:
        return r.error(tag + ": the loop carries no time")
    res, dt, sigma = best
    r.ob(tag + ": integration ends at the requested epoch", res["end"], "the time reached by the integration can differ from the requested epoch", loc)
    r.ob(tag + ": steps of at most 60 s", res["step"], "a step can exceed 60 s", loc)
    back = it.l["backpc"]
    names = set()
    nxt = [it.ds[y]["next"] for y in ys]
    joint = [(back, [])]
    tau = dt["sym"]
    for q, tn in dcases(dt["next"], back):
        if not any(feas(cu, n) for cu in lra.cubes(q)):
            continue
        hh = it.zero_round(mk("fsub", tn, tau) if sigma > 0 else mk("fsub", tau, tn))
        subs = [(q, [])]
        for t in nxt:
            subs = [(q2, xs + [x]) for q1, xs in subs for q2, x in dcases(t, q1)]
        for q2, xs in subs:
            if any(feas(cu, n) for cu in lra.cubes(q2)):
                names |= set(it.rk4(hh, xs))
    for i in range(6):
        r.ob("%s: %s advances by a Runge-Kutta-4 step of the equations of motion" % (tag, NAMES[i]), i not in names,
             "one round of the loop is not an RK4 step of the ICD equations", loc)


def feas(cu, n):
    """can the cube hold within 15 minutes of the reference?"""
    lim = {(): Fraction(LIMIT)}
    return not lra.contradictory(lra.cube_facts(cu) + [le(n, lim), le(neg(n), lim)])


def timing(r, c, it, dt, T, run):
    """does the time in dt end at T, in steps of at most 60 s?"""
    n = nf(it.tk.t)
    lim = {(): Fraction(LIMIT)}
    within = [le(n, lim), le(neg(n), lim)]
    tau = nf(dt["sym"])
    out = dict(end=True, step=True)
    for sgn in ([lt(n)], [lt(neg(n))], [le(n), le(neg(n))]):          # backwards, forwards, at the reference
        entry = within + sgn
        keep, inv = it.invariants(tau, T, entry)
        for cu in lra.cubes(run):
            fs = lra.cube_facts(cu) + entry
            if lra.contradictory(fs):
                continue
            fs = close(fs) + inv
            if not (lra.implies(fs, le(tau, T)) and lra.implies(fs, le(T, tau))):
                out["end"] = False
        for q, x in dcases(dt["next"], it.l["backpc"]):
            for cu in lra.cubes(q):
                fs = lra.cube_facts(cu) + entry
                if lra.contradictory(fs):
                    continue
                fs = close(fs) + inv
                st = minus(nf(x), tau)
                six = {(): Fraction(STEP)}
                if not (lra.implies(fs, le(st, six)) and lra.implies(fs, le(neg(st), six))):
                    out["step"] = False
    return out
