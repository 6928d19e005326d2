"""P09: per-system meaning of a broadcast message: health, validity, reference epoch, issue, accuracy."""
from navlib import *

SYSTEMS = ("gps", "galileo", "beidou", "glonass")
UNSUPPORTED = ("sbas", "qzss", "irnss", "mixed")
WEEK0 = {"gps": 0, "galileo": 0, "beidou": 1356}


def find(t, pred, seen=None):
    """sub-terms of t satisfying pred"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        if x.op == "lin":
            st += [y for y, _ in x.a[1]]
        elif x.op in ("ite", "bool"):
            for v in bdd.support(x.a[0]):
                st += list(bdd.atoms[v].a)
            st += list(x.a[1:])
        else:
            st += list(x.a)
    return out


def trunc(x):
    return mk("fptosi", x.t)


def as_sec(t):
    """a term of the finer resolution as whole seconds, when it is a cast of them"""
    return t.a[0] if t.op == "cast_to" else t


def check():
    r = Report("P09")
    for cfg in ("prod", "debug"):
        s = r.session(cfg)
        E = s.satsys()
        simple = dict(
            sv_health=r"ngpt::NavDataFrame::sv_health\(\) const",
            fit_interval=r"ngpt::NavDataFrame::fit_interval\(\) const")
        dates = {u: r".*ngpt::NavDataFrame::toe2date<ngpt::%s(, void)?>\(\) const" % u for u in ("seconds", "milliseconds")}
        states = {u: r"int ngpt::NavDataFrame::stateNclock<ngpt::%s(, void)?>\(ngpt::datetime<ngpt::%s> const&, double\*, double&\) const" % (u, u)
                  for u in ("seconds", "milliseconds")}
        for n in SYSTEMS + UNSUPPORTED:
            for nm, rx in simple.items():
                st = State()
                fr = Frame(s, st, "frame", I(E[n]))
                f = s.fn(rx)
                loc = "%s:%d" % (f.file, f.line)
                tag = "%s %s %s" % (cfg, n, nm)
                rv, ns, ts = s.run(f, [fr.p], st)
                if n in UNSUPPORTED:
                    r.ob(tag + ": rejected", rv is None and ts is not None, "does not throw for this system", loc)
                    continue
                d = lambda i: fr.d(st, i)
                if nm == "sv_health":
                    want = trunc(d(6 if n == "glonass" else 24))
                else:
                    want = I(900) if n == "glonass" else I(14400) if n != "gps" else mulc(trunc(d(28)), 3600)
                r.same(tag, rv, want, 1, nm, loc)
                r.ob(tag + ": never throws", ts is None or ts.pc == 0, "throws for a supported system", loc)
                r.ob(tag + ": message unchanged", ns is None or ns.mem["frame"] is st.mem["frame"], "", loc)
            for u, rx in states.items():
                if n in UNSUPPORTED:
                    st = State()
                    fr = Frame(s, st, "frame", I(E[n]))
                    f = s.fn(rx)
                    t = epoch(s, st, "t", sym("t.day"), sym("t.sec"))
                    rv, ns, ts = s.run(f, [fr.p, t, s.out("state", 48, st=st), s.out("clk", 8, st=st)], st)
                    r.ob("%s %s state<%s>: rejected" % (cfg, n, u), rv is None and ts is not None,
                         "a state is computed for an unsupported system", "%s:%d" % (f.file, f.line))
            for u, rx in dates.items():
                st = State()
                fr = Frame(s, st, "frame", I(E[n]))
                f = s.fn(rx)
                loc = "%s:%d" % (f.file, f.line)
                tag = "%s %s reference epoch <%s>" % (cfg, n, u)
                day, sec = date_of(s, f, [fr.p], st)
                if n in UNSUPPORTED:
                    r.ob(tag + ": rejected", day is None, "does not throw for this system", loc)
                    continue
                if day is None:
                    r.ob(tag + ": returned", False, "throws for a supported system", loc)
                    continue
                if n != "glonass":
                    keplerian(r, tag, fr, st, n, u, day, sec, loc)
                else:
                    glonass(r, tag, fr, st, day, sec, loc)
        accuracy(r, s, cfg, E)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with exhaustive case analysis over systems and week days",
        "for every system the health, validity and reference epoch come from the message fields the format assigns to them, "
        "with the system's own week origin; systems without a model are rejected by an exception",
        "the public dispatchers are interpreted for each enumerator on a symbolic message; dates are compared as (week, seconds) or (day, seconds)",
        minimum=120, assumptions=["GLONASS frame times are inside the week (0..604799 s)"])


def parts(t, which):
    """(constructor signature, arguments) of the date whose day / seconds t is"""
    if t.op != which or t.a[0].op != "dt":
        return None, ()
    return t.a[0].a[0], t.a[0].a[1:]


def keplerian(r, tag, fr, st, n, u, day, sec, loc):
    d = lambda i: fr.d(st, i)
    k1, a1 = parts(day, "dmjd")
    k2, a2 = parts(sec, "dsec")
    if k1 != k2 or a1 != a2 or k1 is None or not k1.startswith("ctor<%s>(ngpt::gps_week, " % u):
        r.error("%s: %s is not a date made of a week and seconds" % (tag, cut(show(day), 160)))
        return
    r.same(tag + ": week", a1[0], add(trunc(d(21)), I(WEEK0[n])), 1, "the week", loc)
    s = a1[1]
    if k1.endswith("ngpt::milliseconds)") and s.op == "lin":
        s = restrict_term(s, 1)
    r.same(tag + ": seconds", as_sec(s), trunc(d(11)), 1, "the seconds of week", loc)


def glonass(r, tag, fr, st, day, sec, loc):
    k1, a1 = parts(day, "dmjd")
    k2, a2 = parts(sec, "dsec")
    if k1 != k2 or a1 != a2 or k1 is None or not k1.split("(")[1].startswith("ngpt::modified_julian_day"):
        r.error("%s: %s is not a date made of a day and seconds" % (tag, cut(show(day), 160)))
        return
    ft = trunc(fr.d(st, 2))
    pc = bdd.AND(bdd.NOT(icmp("slt", ft, I(0)).a[0]), icmp("slt", ft, I(604800)).a[0])
    r.same(tag + ": seconds of day", under(as_sec(a1[1]), pc), mk("srem", ft, I(86400)), pc, "the seconds of day", loc)
    sow = find(a1[0], lambda x: x.op == "dsow")
    if len(sow) != 1:
        r.error(tag + ": the week day of the clock reference does not come from as_gps_wsow")
        return
    D = sow[0].a[0]
    base = D.a[1] if D.op == "dt" and D.a[0] == "mjd+sec" else None
    if base is None:
        r.error(tag + ": the clock reference epoch was not recognised")
        return
    tocday, tocsec = fr.date(st, "toc")
    r.ob(tag + ": refers to the clock epoch", tocday is base and tocsec is D.a[2], "the day is not counted from the clock epoch", loc)
    for i in range(7):
        for j in range(7):
            # the two week days, with any time of day
            m = {mk("sdiv", sow[0], I(86400)): I(i), mk("sdiv", ft, I(86400)): I(j)}
            x = subst(a1[0], m)
            off = (j - i + 3) % 7 - 3
            left = find(x, lambda y: y is sow[0] or y is ft)
            if left:            # depends on the time of day: look for an instant with another day
                for p in (0, 1, 43199, 43200, 86399):
                    for q in (0, 1, 43199, 43200, 86399):
                        y = sub(subst(a1[0], {sow[0]: I(i * 86400 + p), ft: I(j * 86400 + q)}), tocday)
                        if y.op == "int" and y.a[0] != off:
                            r.ob("%s: depends on week days only" % tag, False, "clock epoch at second %d and frame time at second %d of the week "
                                 "give day offset %d, specified %d" % (i * 86400 + p, j * 86400 + q, y.a[0], off), loc)
                            return
            if left:
                r.error("%s: the day could not be reduced to week days: %s" % (tag, cut(show(x), 200)))
                return
            r.same("%s: clock epoch on week day %d, frame time on week day %d" % (tag, i, j), x, add(tocday, I(off)), 1, "the day", loc)


def accuracy(r, s, cfg, E):
    for nm, idx, want in (("gal_iod_nav", 3, lambda x: trunc(x)), ("gal_sisa", 23, lambda x: x.t)):
        st = State()
        fr = Frame(s, st, "frame", I(E["galileo"]))
        f = s.fn(r"ngpt::NavDataFrame::%s\(\) const" % nm)
        rv, ns, ts = s.run(f, [fr.p], st)
        while rv is not None and rv.op in ("fptrunc", "fpext"):
            rv = rv.a[0]
        r.same("%s galileo %s" % (cfg, nm), rv, want(fr.d(st, idx)), 1, nm, "%s:%d" % (f.file, f.line))


if __name__ == "__main__":
    sys.exit(check())
