"""P20: text forms, attributes and constructors of satellites, observables and their combinations."""
from antlib import *
from ggsa.models import str_get, str_cat, chr_str, cases_of, num_digits

OB, SA = "src/gnssobsrv.cpp", "src/satellite.cpp"
STR = r"ngpt::%s::to_string(\[abi:cxx11\])?\(.*\) const"


def text(b):
    return mk("str", ("lit", b.encode()))


def number(x):
    """decimal form, as std::to_string gives it"""
    return mk("str", ("lit", str(x.a[0]).encode())) if x.op == "int" else mk("str", ("num", x))


def pieces(v, pc):
    """a text as its characters and numbers of more than one digit, None if it is not known"""
    out = []
    if v.op != "str":
        return None
    for k, *a in v.a:
        if k == "lit":
            out += [("chr", I(c if c < 128 else c - 256)) for c in a[0]]
        elif k == "chr":
            out.append(("chr", a[0]))
        elif k == "num":
            d = num_digits(a[0], pc)
            out += [("num", a[0])] if d is None else [("chr", x) for x in d]
        elif k == "fill" and a[0].op == "int":
            out += [("chr", a[1])] * a[0].a[0]
        else:
            return None
    return out


def same_text(r, k, got, want, pc, loc, what="the text"):
    """the text computed is the specified one whenever pc holds"""
    bad, opq = 0, None
    for c, x in cases_of(got):
        c = bdd.AND(c, pc)
        if c == 0:
            continue
        for d, y in cases_of(want):
            e = bdd.AND(c, d)
            if e == 0:
                continue
            p, q = pieces(x, e), pieces(y, e)
            if p is None:
                opq = x
                continue
            if len(p) != len(q) or any(a[0] != b[0] for a, b in zip(p, q)):
                bad = bdd.OR(bad, e)
                continue
            for a, b in zip(p, q):
                if a[1] is b[1]:
                    continue
                if differences(a[1], b[1], e):
                    bad = bdd.OR(bad, bdd.AND(e, bdd.NOT(cmp_eq0(sub(a[1], b[1])))) if a[0] == "chr" else e)
    if opq is not None:
        r.error("%s: the analysis could not interpret %s" % (k, cut(show(opq))))
        return
    r.ob(k, bad == 0, "%s is %s, specified %s, when %s" % (what, cut(show(got)), cut(show(want)), cut(bdd.show(bad, 2))), loc)


def to_str(s, cls, args, st, n=[0]):
    n[0] += 1
    out = s.out("text%d" % n[0], 32, st=st)
    rv, ns, ts = s.run(STR % cls, [out] + args, st)
    return (None if ns is None else str_get(s.ip, ns, out)), ns, ts


def put(s, st, p, v, size=4):
    s.ip.state = st
    s.ip.store(st, None, None, p, size, v)


def check():
    r = Report("P20")
    s = exact(r.session())
    E = s.satsys()
    LET = dict(gps="G", glonass="R", sbas="S", galileo="E", beidou="C", qzss="J", irnss="I", mixed="M")
    TY = s.enum("OBSERVABLE_TYPE").values()
    order = sorted(E)
    # (bytes of a system)
    width = 1
    cnt = [0]

    def comp(nm, k, sysname=None):
        """system, code and coefficient; the code's type is arbitrary when the system is, else one of the known"""
        st = State()
        code = s.obj(nm + ".code%d" % k, rec="ngpt::ObservationCode")
        return (I(E[sysname]) if sysname else sym("%s.sys%d" % (nm, k), "i", 0, 7)), code, sym("%s.coef%d" % (nm, k), "f")

    def raw(c, st, nm):
        o = s.out(nm, rec="ngpt::GnssRawObservable", st=st)
        rv, st, ts = s.run(D % "d_raw_ctor", [o, c[0], c[1]], st)
        return o, st

    def codes(o, st):
        return [s.get(D % ("d_code_get%d" % i), [o], st) for i in range(3)]

    def code_text(c, st):
        t, ns, ts = to_str(s, "ObservationCode", [c[1]], st.copy())
        return t

    def known(c, st):
        """a code that can be printed: a known type and a one-digit band"""
        ty, band, at = codes(c[1], st)
        return bdd.AND(bdd.AND(icmp("sge", ty, I(min(TY))).a[0], icmp("sle", ty, I(max(TY))).a[0]), bdd.AND(icmp("sge", band, I(0)).a[0], icmp("sle", band, I(9)).a[0]))

    # -- raw observables
    def is_code(t, o, c, st, loc=OB):
        for w, g, x in zip(("type", "band", "attribute"), codes(o, st), codes(c, st)):
            r.same("%s: code, %s" % (t, w), g, x, 1, w, loc)
    c = comp("raw", 0)
    st = State()
    o, st = raw(c, st, "raw0")
    r.same("observable: system", s.get(D % "d_raw_sys", [o], st), c[0], 1, "the system", OB)
    r.same("observable: first of the pair is the system", s.get(D % "d_raw_get0", [o], st), c[0], 1, "the system", OB)
    r.same("observable: band", s.get(D % "d_raw_band", [o], st), codes(c[1], st)[1], 1, "the band", OB)
    for f, w in (("d_raw_code", "code"), ("d_raw_get1", "second of the pair")):
        x = s.out("raw." + f, rec="ngpt::ObservationCode", st=st)
        rv, st, ts = s.run(D % f, [x, o], st)
        is_code("observable: " + w, x, c[1], st)
    for f, w in (("d_raw_sysr", "system reference"), ("d_raw_ref0", "reference to the first")):
        n2 = st.copy()
        p = s.get(D % f, [o], n2)
        v = sym("newsys." + f, "i", 0, 7)
        put(s, n2, p, v, width)
        r.same("observable: changing the %s" % w, s.get(D % "d_raw_sys", [o], n2), v, 1, "the system", OB)
        x = s.out("raw2." + f, rec="ngpt::ObservationCode", st=n2)
        rv, n2, ts = s.run(D % "d_raw_code", [x, o], n2)
        is_code("observable: changing the %s leaves" % w, x, c[1], n2)
    n2 = st.copy()
    p = s.get(D % "d_raw_ref1", [o], n2)
    q = s.get(D % "d_code_ref1", [p], n2)
    v = sym("newband", "i", 0, 9)
    put(s, n2, q, v)
    r.same("observable: changing the code's band", s.get(D % "d_raw_band", [o], n2), v, 1, "the band", OB)
    r.same("observable: changing the code leaves the system", s.get(D % "d_raw_sys", [o], n2), c[0], 1, "the system", OB)

    for nm in order:
        st = State()
        c = comp("rawt." + nm, 0, nm)
        o, st = raw(c, st, "rawt." + nm)
        st.pc = bdd.AND(st.pc, known(c, st))
        t, ns, ts = to_str(s, "GnssRawObservable", [o], st.copy())
        r.cond("observable of %s: printing ends normally" % nm, ns.pc if ns else 0, 1, st.pc, "printing", OB)
        same_text(r, "observable of %s: text" % nm, t, str_cat(text(LET[nm] + "::"), code_text(c, st)), st.pc, OB)

    # -- parts of combinations
    def part_is(t, p, c, k, st):
        r.same(t + ": system", s.get(D % "d_part_tsys", [p], st), c[0], 1, "the system", OB)
        cnt[0] += 1
        x = s.out("pcode%d" % cnt[0], rec="ngpt::ObservationCode", st=st)
        rv, st, ts = s.run(D % "d_part_tcode", [x, p], st)
        is_code(t, x, c[1], st)
        r.same(t + ": coefficient", s.get(D % "d_part_coef", [p], st), k, 1, "the coefficient", OB)
        return st
    for f, dflt in (("d_part_ctor", 0), ("d_part_ctor2", 0), ("d_part_def", 1), ("d_part_def2", 1)):
        st = State()
        c = comp(f, 0)
        o, st = raw(c, st, f + ".raw")
        p = s.out(f + ".part", rec="ngpt::__ObsPart", st=st)
        a = [o] if f in ("d_part_ctor", "d_part_def") else [c[0], c[1]]
        rv, st, ts = s.run(D % f, [p] + a + ([] if dflt else [c[2]]), st)
        part_is("part (%s)" % f, p, c, F(1) if dflt else c[2], st)
    for nm in ("gps", "beidou"):
        st = State()
        c = comp("pt." + nm, 0, nm)
        st.pc = bdd.AND(st.pc, known(c, st))
        p = s.out("pt.part" + nm, rec="ngpt::__ObsPart", st=st)
        rv, st, ts = s.run(D % "d_part_ctor2", [p, c[0], c[1], c[2]], st)
        t, ns, ts = to_str(s, "__ObsPart", [p], st.copy())
        same_text(r, "part of %s: text" % nm, t, str_cat(text(LET[nm] + "::"), code_text(c, st), text("*"), number(c[2])), st.pc, OB)

    # -- combinations: the parts are kept in the order of adding
    for n, way, alike in [(n, w, 0) for n in (1, 2, 3, 5) for w in range(4)] + [(n, w, 1) for n in (2, 3) for w in range(4)]:
        t = "combination of %d %sparts (%s)" % (n, "alike " if alike else "", ("observables", "systems and codes", "no coefficients", "systems and codes, no coefficients")[way])
        st = State()
        g = s.out("comb%d.%d.%d" % (n, way, alike), rec="ngpt::GnssObservable", st=st)
        sysname = lambda i: order[(way if alike else i + way) % 8]
        cs = [comp("c%d.%d.%d" % (n, way, alike), i, sysname(i)) for i in range(n)]
        if alike:
            # the same observable every time
            cs = [(c[0], cs[0][1], c[2]) for c in cs]
        for i, c in enumerate(cs):
            st.pc = bdd.AND(st.pc, known(c, st))
            o, st = raw(c, st, "comb%d.%d.%d.raw%d" % (n, way, alike, i))
            a = [c[0], c[1]] if way % 2 else [o]
            f = (("d_obs_ctor2", "d_obs_add"), ("d_obs_ctor", "d_obs_add2"), ("d_obs_def", "d_obs_addd"), ("d_obs_def2", "d_obs_addd2"))[way][i > 0]
            rv, st, ts = s.run(D % f, [g] + a + ([c[2]] if way < 2 else []), st)
        r.same(t + ": number of parts", s.get(D % "d_obs_n", [g], st), I(n), st.pc, "the number of parts", OB)
        ks = [c[2] if way < 2 else F(1) for c in cs]
        want = []
        for i, c in enumerate(cs):
            p = s.out("combp%d.%d.%d.%d" % (n, way, alike, i), rec="ngpt::__ObsPart", st=st)
            rv, st, ts = s.run(D % "d_obs_part", [p, g, I(i)], st)
            st = part_is("%s: part %d" % (t, i), p, c, ks[i], st)
            nm = sysname(i)
            want += ([text("+")] if i else []) + [text(LET[nm] + "::"), code_text(c, st), text("*"), number(ks[i])]
        x, ns, ts = to_str(s, "GnssObservable", [g], st.copy())
        same_text(r, t + ": text", x, str_cat(*want), st.pc, OB)

    # -- satellites
    sv = s.out("sv", rec="ngpt::Satellite", st=State())
    for f, a in (("d_sat_ctor", 1), ("d_sat_ctor2", 2)):
        st = State()
        sv = s.out("sv." + f, rec="ngpt::Satellite", st=st)
        v = [sym("sys." + f, "i", 0, 7), sym("prn." + f, "i", -999, 999)][:a]
        rv, st, ts = s.run(D % f, [sv] + v, st)
        t = "satellite of a system" + (" and number" if a > 1 else "")
        r.same(t + ": system", s.get(D % "d_sat_sys", [sv], st), v[0], 1, "the system", SA)
        r.same(t + ": number", s.get(D % "d_sat_prn", [sv], st), v[1] if a > 1 else I(-1), 1, "the number", SA)
        r.same(t + ": vehicle number", s.get(D % "d_sat_svn", [sv], st), I(-1), 1, "the vehicle number", SA)
        p = s.get(D % "d_sat_cospar", [sv], st)
        s.ip.state = st
        for i in range(10):
            r.same(t + ": identifier, character %d" % i, s.load(st, p, i, 1, "i8"), I(0), 1, "the identifier", SA)
        for g, h, w in (("d_sat_prnr", "d_sat_prn", "number"), ("d_sat_svnr", "d_sat_svn", "vehicle number"), ("d_sat_sysr", "d_sat_sys", "system")):
            n2 = st.copy()
            x = sym("new." + g, "i", 0, 7)
            put(s, n2, s.get(D % g, [sv], n2), x, width if g == "d_sat_sysr" else 4)
            for k, u in (("d_sat_prn", "number"), ("d_sat_svn", "vehicle number"), ("d_sat_sys", "system")):
                r.same("%s: changing its %s, %s" % (t, w, u), s.get(D % k, [sv], n2), x if k == h else s.get(D % k, [sv], st), 1, "the " + u, SA)
        # its antenna, and what changing the others does to the antenna and the identifier
        an = s.get(D % "d_sat_antr", [sv], st)
        tx = s.get(D % "d_sant_str", [an], st)
        cs = symbytes(s, st, tx.a[0], tx.a[1].a[0], 20, "ant." + f)
        ids = symbytes(s, st, p.a[0], p.a[1].a[0], 10, "ident." + f)

        def texts(w, m):
            o = s.out("ant." + f + w, rec="ngpt::SatelliteAntenna", st=m)
            rv, m, ts = s.run(D % "d_sat_ant", [o, sv], m)
            y = s.get(D % "d_sant_str", [o], m)
            for i in range(20):
                r.same("%s: %s, antenna, character %d" % (t, w, i), s.load(m, y, i, 1, "i8"), cs[i], 1, "the antenna", SA)
            for i in range(10):
                r.same("%s: %s, identifier, character %d" % (t, w, i), s.load(m, p, i, 1, "i8"), ids[i], 1, "the identifier", SA)
        texts("as set", st.copy())
        for g, w in (("d_sat_prnr", "number"), ("d_sat_svnr", "vehicle number"), ("d_sat_sysr", "system")):
            n2 = st.copy()
            put(s, n2, s.get(D % g, [sv], n2), sym("other." + g, "i", 0, 7), width if g == "d_sat_sysr" else 4)
            texts("changing its " + w, n2)
    # at least two, at least three digits
    for nm in order:
        for k, (lo, hi, z) in enumerate(((0, 9, "0"), (10, 99, ""), (100, 999, ""))):
            for m, (lo2, hi2, z2) in enumerate(((0, 9, "00"), (10, 99, "0"), (100, 999, ""), (1000, 9999, ""))):
                for full in (0, 1) if m == 0 else (1,):
                    st = State()
                    w = "%s%d%d%d" % (nm, k, m, full)
                    sv = s.out("svt" + w, rec="ngpt::Satellite", st=st)
                    n, v = sym("n" + w, "i", lo, hi), sym("v" + w, "i", lo2, hi2)
                    rv, st, ts = s.run(D % "d_sat_ctor2", [sv, I(E[nm]), n], st)
                    put(s, st, s.get(D % "d_sat_svnr", [sv], st), v)
                    p = s.get(D % "d_sat_cospar", [sv], st)
                    cs = symbytes(s, st, p.a[0], p.a[1].a[0], 9, "id" + w, 1, 127)
                    x, ns, ts = to_str(s, "Satellite", [sv, I(0 if full else 1)], st.copy())
                    t = "satellite of %s, %s form, numbers from %d and %d" % (nm, "long" if full else "short", lo, lo2)
                    r.cond(t + ": printing ends normally", ns.pc if ns else 0, 1, st.pc, "printing", SA)
                    want = [text(LET[nm] + z), number(n)]
                    if full:
                        want += [text("-" + z2), number(v), text("/")] + [chr_str(c) for c in cs]
                    same_text(r, t + ": text", x, str_cat(*want), st.pc, SA)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with an abstract domain of texts",
        "text forms are those of the statement; accessors return and change exactly their attribute; parts are kept in the order of adding",
        "constructors, accessors and printing functions are interpreted on arbitrary attributes and compared with the specified attributes and texts",
        minimum=600, assumptions=["numbers are printed by std::to_string, an uninterpreted text of the number"])


if __name__ == "__main__":
    sys.exit(check())
