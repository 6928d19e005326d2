"""P04: equality operators are equality: of codes, observables, combinations and antennas."""
from itertools import permutations
from antlib import *


def AND(*xs):
    o = 1
    for x in xs:
        o = bdd.AND(o, x)
    return o


def OR(xs):
    o = 0
    for x in xs:
        o = bdd.OR(o, x)
    return o


def eqi(a, b):
    return cmp_eq0(sub(a, b))




def code_eq(s, a, b, st=None):
    st = st or State()
    return AND(*[eqi(s.get(D % ("d_code_get%d" % i), [a], st), s.get(D % ("d_code_get%d" % i), [b], st))
                 for i in range(3)])


def fcmp_eq(a, b):
    return fcmp("oeq", a, b).a[0]


def pair(r, s, name, rec, feq_, loc):
    a, b = s.obj(name + ".a", rec=rec), s.obj(name + ".b", rec=rec)
    w = feq_(a, b)
    rv, ns, ts = s.run(D % ("d_%s_eq" % name), [a, b])
    r.cond("%s: equal iff all parts are equal" % rec.split("::")[1], truth(rv), w, 1, "==", loc)
    rv, ns, ts = s.run(D % ("d_%s_ne" % name), [a, b])
    r.cond("%s: != is the negation" % rec.split("::")[1], truth(rv), bdd.NOT(w), 1, "!=", loc)


def check():
    r = Report("P04")
    s = r.session()
    E = s.satsys()
    # attributes and codes
    a0 = s.obj("attr.a", rec="ngpt::ObservationAttribute")
    v = sym("battr", "i", -128, 127)
    ca = s.get(D % "d_attr_char", [a0], State())
    rv, ns, ts = s.run(D % "d_attr_eq", [a0, v])
    r.cond("ObservationAttribute: equal iff the same letter", truth(rv), eqi(ca, v), 1, "==", "src/gnssobs.hpp")
    rv, ns, ts = s.run(D % "d_attr_ne", [a0, v])
    r.cond("ObservationAttribute: != is the negation", truth(rv), bdd.NOT(eqi(ca, v)), 1, "!=", "src/gnssobs.hpp")
    pair(r, s, "code", "ngpt::ObservationCode", lambda a, b: code_eq(s, a, b), "src/gnssobs.hpp")

    def raw_eq(a, b):
        st = State()
        w = eqi(s.get(D % "d_raw_sys", [a], st), s.get(D % "d_raw_sys", [b], st))
        oa, ob = s.out(a.a[0] + ".code", rec="ngpt::ObservationCode", st=st), s.out(b.a[0] + ".code", rec="ngpt::ObservationCode", st=st)
        _, st, _ = s.run(D % "d_raw_code", [oa, a], st)
        _, st, _ = s.run(D % "d_raw_code", [ob, b], st)
        return AND(w, code_eq(s, oa, ob, st))
    pair(r, s, "raw", "ngpt::GnssRawObservable", raw_eq, "src/gnssobsrv.hpp")

    # parts: built through the constructor so that every component is a symbol
    def comp(nm, i, common=None):
        code = common or s.obj("%s.code%d" % (nm, i), rec="ngpt::ObservationCode")
        return sym("%s.sys%d" % (nm, i), "i", 0, 7), code, sym("%s.coef%d" % (nm, i), "f")

    def nn(st, cs):
        for c in cs:
            st.pc = AND(st.pc, fcmp_eq(c[2], c[2]))

    def part_eq(x, y):
        return AND(eqi(x[0], y[0]), code_eq(s, x[1], y[1]), fcmp_eq(x[2], y[2]))
    st = State()
    A, B = comp("pa", 0), comp("pb", 0)
    nn(st, [A, B])
    pa, pb = s.out("pa", rec="ngpt::__ObsPart", st=st), s.out("pb", rec="ngpt::__ObsPart", st=st)
    for p, c in ((pa, A), (pb, B)):
        _, st, _ = s.run(D % "d_part_ctor2", [p, c[0], c[1], c[2]], st)
    rv, ns, ts = s.run(D % "d_part_eq", [pa, pb], st)
    r.cond("combination part: equal iff system, code and coefficient are equal", truth(rv), part_eq(A, B), st.pc, "==", "src/gnssobsrv.hpp")
    rv, ns, ts = s.run(D % "d_part_ne", [pa, pb], st)
    r.cond("combination part: != is the negation", truth(rv), bdd.NOT(part_eq(A, B)), st.pc, "!=", "src/gnssobsrv.hpp")

    # combinations: equality is independent of the order and respects multiplicity
    f = s.fn(r"ngpt::GnssObservable::operator==\(.*\) const")
    loc = "%s:%d" % (f.file, f.line)

    def build(nm, cs, st):
        g = s.out(nm, rec="ngpt::GnssObservable", st=st)
        for i, c in enumerate(cs):
            _, st, _ = s.run(D % ("d_obs_ctor" if i == 0 else "d_obs_add2"), [g, c[0], c[1], c[2]], st)
        return g, st
    fixed = I(E["gps"])
    for na, nb, simple in ((1, 1, 0), (1, 2, 0), (2, 1, 0), (2, 2, 0), (2, 3, 1), (3, 3, 1)):
        tag = "%dx%d" % (na, nb)
        cc = s.obj("cc" + tag, rec="ngpt::ObservationCode")
        A = [comp("a" + tag, i, cc if simple else None) for i in range(na)]
        B = [comp("b" + tag, i, cc if simple else None) for i in range(nb)]
        if simple:
            A = [(fixed, c[1], c[2]) for c in A]
            B = [(fixed, c[1], c[2]) for c in B]
        st = State()
        nn(st, A + B)
        ga, st = build("ga" + tag, A, st)
        gb, st = build("gb" + tag, B, st)
        if na != nb:
            w = 0
        else:
            m = [[part_eq(x, y) for y in B] for x in A]
            w = OR(AND(*[m[i][p[i]] for i in range(na)]) for p in permutations(range(na)))
        for op, neg in (("eq", 0), ("ne", 1)):
            rv, ns, ts = s.run(D % ("d_obs_" + op), [ga, gb], st)
            r.cond("combinations of %d and %d parts: %s" % (na, nb, "!= is the negation" if neg else
                   "equal iff the same parts in any order"), truth(rv), bdd.NOT(w) if neg else w, st.pc, op, loc)
    # mixed systems
    for n in (1, 2, 3, 4):
        cs = [comp("m%d" % n, i) for i in range(n)]
        g, st = build("gm%d" % n, cs, State())
        w = OR([bdd.NOT(eqi(cs[0][0], c[0])) for c in cs[1:]] + [0])
        rv, ns, ts = s.run(D % "d_obs_mixed", [g], st)
        r.cond("mixed-system test on %d parts" % n, truth(rv), w, 1, "is_of_mixed_satsys", "src/gnssobsrv.hpp")

    # antennas, every byte an independent symbol
    s2 = exact(r.session())
    st = State()
    objs, txt = [], []
    M = 20                                   # model, blank and radome
    for nm in ("a", "b"):
        o = s2.out(nm, rec="ngpt::ReceiverAntenna", st=st)
        ob, off = text_base(s2, "d_rant_str", o)
        t = symbytes(s2, st, ob, off, M, nm, 1, 127)
        t += symbytes(s2, st, ob, off + M, 20, nm + ".serial", 0, 127) + symbytes(s2, st, ob, off + M + 20, 1, nm, fixed={0: 0})
        objs.append(o)
        txt.append(t)

    def has_serial(t):
        o = 0
        for i in range(M + 19, M - 1, -1):
            z, b = cmp_eq0(t[i]), eqi(t[i], I(32))
            o = AND(bdd.NOT(z), OR([bdd.NOT(b), o]))
        return o

    def str_eq(t, u, lo, hi):
        o = 1
        for i in range(hi - 1, lo - 1, -1):
            o = AND(eqi(t[i], u[i]), OR([cmp_eq0(t[i]), o]))
        return o
    f = s2.fn(r"ngpt::ReceiverAntenna::is_same\(.*\) const")
    loc = "src/antenna.cpp"
    rv, ns, ts = s2.run(r"ngpt::ReceiverAntenna::has_serial\(\) const", [objs[0]], st)
    r.cond("receiver antenna: has a serial iff a non-blank character is stored", truth(rv), has_serial(txt[0]), 1, "has_serial", loc)
    rv, ns, ts = s2.run(f, objs, st)
    w = AND(has_serial(txt[0]), has_serial(txt[1]), str_eq(txt[0], txt[1], 0, M), str_eq(txt[0], txt[1], M, 40))
    r.cond("receiver antenna: same iff model, radome and both serials agree", truth(rv), w, 1, "is_same", loc)
    rv, ns, ts = s2.run(r"ngpt::ReceiverAntenna::compare_model\(.*\) const", objs, st)
    r.cond("receiver antenna: same model iff model and radome agree, whatever the serials", truth(rv),
           str_eq(txt[0], txt[1], 0, M), 1, "compare_model", loc)
    for n in (0, 1, 7, 20):
        st2 = st.copy()
        c, cs = cstring(s2, st2, "serial%d" % n, n)
        rv, ns, ts = s2.run(r"ngpt::ReceiverAntenna::compare_serial\(.*\) const", [objs[0], c], st2)
        u = [I(0)] * M + cs + [I(0)] * (21 - n)
        r.cond("receiver antenna: serial equals a text of %d characters iff identical" % n, truth(rv),
               str_eq(txt[0], u, M, M + 20), 1, "compare_serial", loc)
    st = State()
    o = s2.out("sat", rec="ngpt::SatelliteAntenna", st=st)
    ob, off = text_base(s2, "d_sant_str", o)
    t = symbytes(s2, st, ob, off, 20, "sat", 0, 127) + symbytes(s2, st, ob, off + 20, 1, "sat", fixed={0: 0})
    for n in (0, 1, 7, 19, 20):
        st2 = st.copy()
        c, cs = cstring(s2, st2, "type%d" % n, n)
        rv, ns, ts = s2.run(r"ngpt::SatelliteAntenna::is_same\(.*\) const", [o, c], st2)
        u = cs + [I(0)] * (21 - n)
        r.cond("satellite antenna: same as a text of %d characters iff identical" % n, truth(rv), str_eq(t, u, 0, 20), 1, "is_same", loc)
    return r.finish(
        "proof", "gated value-flow over LLVM IR; equality operators as decision diagrams over all field values",
        "operator== of every value class is exactly equality of all parts (multiset equality for combinations), "
        "operator!= its negation; antenna comparisons are exactly text equality of the documented columns",
        "each operator is reduced to a decision diagram over symbolic fields/bytes and compared with the specified one; "
        "combinations are covered for 1..3 parts on each side", minimum=30,
        assumptions=["coefficients are not NaN", "the model/radome columns hold no NUL (established by P05)"])
