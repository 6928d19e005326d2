"""P03: nominal carrier frequencies and the frequency of linear combinations."""
from common import *

D = r".*ggsa_driver::%s\(.*"
# MHz, RINEX 3.04 tables 4-10 with the band numbering of this library
FREQ = dict(
    gps={1: 1575.42, 2: 1227.60, 5: 1176.45},
    galileo={1: 1575.42, 5: 1176.45, 7: 1207.14, 8: 1191.795, 6: 1278.75},
    sbas={1: 1575.42, 5: 1176.45},
    qzss={1: 1575.42, 2: 1227.60, 5: 1176.45, 6: 1278.75},
    beidou={1: 1561.098, 2: 1207.14, 3: 1268.52},
    irnss={5: 1176.45, 9: 2492.028})


def want_freq(E, sysv, band):
    """(value, condition under which a value exists)"""
    val, ok = F(0.0), 0
    for n, t in FREQ.items():
        e = cmp_eq0(sub(sysv, I(E[n])))
        for b, f in t.items():
            c = bdd.AND(e, cmp_eq0(sub(band, I(b))))
            val = ite(c, F(f), val)
            ok = bdd.OR(ok, c)
    for n in ("glonass", "mixed"):
        ok = bdd.OR(ok, cmp_eq0(sub(sysv, I(E[n]))))
    return val, ok


def check():
    r = Report("P03")
    s = r.session()
    E = s.satsys()
    b = sym("band", "i", -(1 << 31), (1 << 31) - 1)
    for n, t in FREQ.items():
        f = s.fn(r"double ggsa_driver::fr<\(ngpt::SATELLITE_SYSTEM\)%d>\(int\)" % E[n])
        rv, ns, ts = s.run(f, [b])
        anyb = 0
        for k, x in t.items():
            e = cmp_eq0(sub(b, I(k)))
            anyb = bdd.OR(anyb, e)
            r.same("%s band %d" % (n, k), rv, F(x), e, "frequency in MHz", "src/satsys.cpp")
        r.cond("%s: other bands have no frequency" % n, ts.pc if ts else 0, bdd.NOT(anyb), 1,
               "the condition under which the lookup throws", "src/satsys.cpp")
    # one part: coefficient times nominal frequency
    part = s.obj("part", rec="ngpt::__ObsPart")
    csz, rsz = s.rec_size("ngpt::ObservationCode"), s.rec_size("ngpt::GnssRawObservable")
    st = State()
    code = s.obj("code", rec="ngpt::ObservationCode")
    sysv = sym("sys", "i", min(E.values()), max(E.values()))
    k1 = sym("coef", "f")
    p = s.out("p", rec="ngpt::__ObsPart", st=st)
    rv, ns, ts = s.run(D % "d_part_ctor2", [p, sysv, code, k1], st)
    band = s.get(D % "d_code_band", [code], ns)
    f = s.fn(r"ngpt::__ObsPart::frequency\(\) const")
    loc = "%s:%d" % (f.file, f.line)
    rv, n2, ts = s.run(f, [p], ns)
    val, ok = want_freq(E, sysv, band)
    r.same("single observable", rv, mk("fmul", val, k1), ok, "frequency", loc)
    r.cond("single observable: unknown bands are rejected by an exception", ts.pc if ts else 0, bdd.NOT(ok), 1,
           "throwing condition", loc)
    # combination of two: the sum
    code2 = s.obj("code2", rec="ngpt::ObservationCode")
    k2 = sym("coef2", "f")
    fq = s.fn(r"ngpt::GnssObservable::frequency\(\) const")
    loc = "%s:%d" % (fq.file, fq.line)
    band2 = s.get(D % "d_code_band", [code2], State())
    for a in SYS:
        st = State()
        g = s.out("g" + a, rec="ngpt::GnssObservable", st=st)
        rv, n0, ts = s.run(D % "d_obs_ctor", [g, I(E[a]), code, k1], st)
        rv, n1, ts = s.run(D % "d_obs_freq", [g], n0.copy())
        v1, o1 = want_freq(E, I(E[a]), band)
        r.same("combination of one (%s)" % a, rv, mk("fmul", v1, k1), o1, "frequency", loc)
        r.cond("combination of one (%s): unknown bands are rejected by an exception" % a, ts.pc if ts else 0, bdd.NOT(o1), 1, "throwing condition", loc)
        for c in SYS:
            rv, n2, ts = s.run(D % "d_obs_add2", [g, I(E[c]), code2, k2], n0.copy())
            rv, n3, ts = s.run(D % "d_obs_freq", [g], n2)
            v2, o2 = want_freq(E, I(E[c]), band2)
            r.same("combination of two (%s,%s)" % (a, c), rv, mk("fadd", mk("fmul", v1, k1), mk("fmul", v2, k2)),
                   bdd.AND(o1, o2), "frequency", loc)
            r.cond("combination of two (%s,%s): unknown bands are rejected by an exception" % (a, c), ts.pc if ts else 0,
                   bdd.NOT(bdd.AND(o1, o2)), 1, "throwing condition", loc)
    # any number: running sum over all parts
    s2 = r.session()
    gg = s2.obj("gg", rec="ngpt::GnssObservable")
    n = len(s2.ip.loops)
    rv, ns, ts = s2.run(fq, [gg])
    lps = [l for l in s2.ip.loops[n:] if any(d["sym"].op == "sym" and d["sym"].a[1] == "f" for d in l["syms"].values())]
    okrec = False
    for l in lps:
        for d in l["syms"].values():
            if d["sym"].op == "sym" and d["sym"].a[1] == "f" and d["next"] is not None:
                z = peq(nf(d["init"]), {})
                inc = [x for _, x in cases(d["next"], l["backpc"])]
                g1 = all(not mentions(x2, d["sym"]) for x2 in [strip(x, d["sym"]) for x in inc] if x2 is not None)
                if z and inc and all(strip(x, d["sym"]) is not None for x in inc) and g1:
                    okrec = True
    r.ob("combination of any number accumulates additively from zero", okrec,
         "no additive accumulator starting at zero was found in the summation loop", loc)
    return r.finish(
        "proof", "gated value-flow over LLVM IR incl. the dynamically initialised frequency tables",
        "every band of every system maps to its nominal carrier frequency, every other band throws, and a combination's "
        "frequency is the coefficient-weighted sum of its parts",
        "tables are evaluated from the static initialisers' IR; lookups and sums are compared as polynomials", minimum=60,
        assumptions=["GLONASS (FDMA) and the mixed system have no single nominal frequency and contribute zero"])


def strip(x, acc):
    """x minus acc when x is an addition with acc, else None"""
    if x.op == "fadd":
        if x.a[0] is acc:
            return x.a[1]
        if x.a[1] is acc:
            return x.a[0]
    return None


def mentions(t, y):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x is y:
            return True
        if isinstance(x, tuple):
            st += list(x)
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            st += list(x.a)
    return False
