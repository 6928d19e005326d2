"""P02: observation codes parse, print and map as documented."""
from common import *

LET = dict(pseudorange="C", carrier_phase="L", doppler="D", signal_strength="S",
           ionosphere_phase_delay="I", receiver_channel_number="X", any="?")
D = r".*ggsa_driver::%s\(.*"


def fields(s, o, st):
    return [s.get(D % ("d_code_get%d" % i), [o], st) for i in range(3)]


def check():
    r = Report("P02")
    s = r.session()
    E = s.enum("OBSERVABLE_TYPE")
    miss = [k for k in LET if k not in E]
    if miss:
        raise AnchorError("observable types missing: %s" % miss)
    v = sym("type", "i", min(E.values()), max(E.values()))
    f = s.fn(r"ngpt::observabletype_to_char\(ngpt::OBSERVABLE_TYPE\)")
    rv, ns, ts = s.run(f, [v])
    loc = "%s:%d" % (f.file, f.line)
    for n, c in LET.items():
        r.same("observabletype_to_char(%s)" % n, rv, I(ord(c)), cmp_eq0(sub(v, I(E[n]))), "letter of " + n, loc)
    r.cond("observabletype_to_char never throws", ts.pc if ts else 0, 0, 1, "throwing condition", loc)
    ch = sym("c", "i", -128, 127)
    f = s.fn(r"ngpt::char_to_observabletype\(char\)")
    loc = "%s:%d" % (f.file, f.line)
    rv, ns, ts = s.run(f, [ch])

    def types(x):
        anyv, val = 0, I(-1)
        for n, c in LET.items():
            if n != "any":
                e = cmp_eq0(sub(x, I(ord(c))))
                anyv = bdd.OR(anyv, e)
                val = ite(e, I(E[n]), val)
        return anyv, val
    anyv, val = types(ch)
    for n, c in LET.items():
        if n != "any":
            e = cmp_eq0(sub(ch, I(ord(c))))
            r.same("char_to_observabletype('%s')" % c, rv, I(E[n]), e, "type of '%s'" % c, loc)
    r.cond("char_to_observabletype: any other letter is rejected by an exception", ts.pc if ts else 0,
           bdd.NOT(anyv), 1, "throwing condition", loc)
    # parsing of an arbitrary string
    for cap in (4, 64):
        st = State()
        p, L = s.line(st, "text%d" % cap, cap)
        o = s.out("code%d" % cap, rec="ngpt::ObservationCode", st=st)
        f = s.fn(r"ngpt::ObservationCode::ObservationCode\(char const\*\)")
        loc = "%s:%d" % (f.file, f.line)
        rv, ns, ts = s.run(f, [o, p], st)
        ln = mk("slen", L)
        c0, c1, c2 = (mk("ch", L, I(i)) for i in range(3))
        anyv, val = types(c0)
        okc = bdd.AND(icmp("sge", ln, I(2)).a[0], anyv)
        r.cond("parse[%d]: rejected iff shorter than two characters or of unknown type" % cap,
               ts.pc if ts else 0, bdd.NOT(okc), 1, "throwing condition", loc)
        if ns is None:
            r.ob("parse[%d]: a valid code is accepted" % cap, False, "every input throws", loc)
            continue
        g = fields(s, o, ns)
        r.same("parse[%d]: observable type" % cap, g[0], val, okc, "type", loc)
        r.same("parse[%d]: band" % cap, g[1], sub(c1, I(48)), okc, "band", loc)
        has = bdd.AND(icmp("sge", ln, I(3)).a[0], bdd.NOT(cmp_eq0(sub(c2, I(32)))))
        r.same("parse[%d]: attribute" % cap, g[2], ite(has, c2, I(63)), okc, "attribute", loc)
    # printing: three characters
    c = s.obj("code", rec="ngpt::ObservationCode")
    st = State()
    ty, band, at = fields(s, c, st)
    # assumption of the printed form: one-digit band, a real type
    st.pc = assume(assume(icmp("sge", band, I(0)).a[0], icmp("sle", band, I(9)).a[0]),
                   bdd.AND(icmp("sge", ty, I(min(E.values()))).a[0], icmp("sle", ty, I(max(E.values()))).a[0]))
    pc0 = st.pc
    out = s.out("str", 32, st=st)
    f = s.fn(r"ngpt::ObservationCode::to_string(\[abi:cxx11\])?\(\) const")
    loc = "%s:%d" % (f.file, f.line)
    rv, ns, ts = s.run(f, [out, c], st)
    r.cond("print: never throws", ts.pc if ts else 0, 0, pc0, "throwing condition", loc)
    from ggsa.models import str_char, str_size
    txt = str_get(s.ip, ns, out)
    r.same("print: length", str_size(txt), I(3), pc0, "length", loc)
    want = I(0)
    for n, x in LET.items():
        want = ite(cmp_eq0(sub(ty, I(E[n]))), I(ord(x)), want)
    for i, (w, what) in enumerate(((want, "type letter"), (add(band, I(48)), "band digit"), (at, "attribute"))):
        r.same("print: %s" % what, str_char(txt, I(i), pc0), w, pc0, what, loc)
    # construction from parts
    st = State()
    o = s.out("code3", rec="ngpt::ObservationCode", st=st)
    t0, b0, a0 = sym("t", "i", min(E.values()), max(E.values())), sym("b", "i"), sym("a", "i", -128, 127)
    f = s.fn(D % "d_code_ctor")
    rv, ns, ts = s.run(f, [o, t0, b0, a0], st)
    for i, (w, what) in enumerate(((t0, "type"), (b0, "band"), (a0, "attribute"))):
        r.same("construct from parts: %s" % what, fields(s, o, ns)[i], w, 1, what, "src/gnssobs.hpp")
    r.same("band accessor", s.get(D % "d_code_band", [o], ns), b0, 1, "band", "src/gnssobs.hpp")
    r.same("attribute accessor", s.get(D % "d_attr_char", [s.get(D % "d_code_ref2", [o], ns)], ns), a0, 1,
           "attribute character", "src/gnssobs.hpp")
    # references to the parts
    for i, (what, size) in enumerate((("type", None), ("band", 4), ("attribute", 1))):
        n2 = ns.copy()
        p = s.get(D % ("d_code_ref%d" % i), [o], n2)
        v = sym("new%s" % what, "i", 0, 5)
        w = size or int(s.fn(D % "d_code_get0").d["ret"].split(" ")[-1][1:]) // 8
        s.ip.state = n2
        s.ip.store(n2, None, None, p, w, v)
        for j, (old, u) in enumerate(((t0, "type"), (b0, "band"), (a0, "attribute"))):
            r.same("changing the %s through its reference: %s" % (what, u), fields(s, o, n2)[j], v if i == j else old, 1, u, "src/gnssobs.hpp")
    return r.finish(
        "proof", "gated value-flow over LLVM IR, all strings and all codes",
        "parsing accepts exactly letter+digit[+attribute] with a known type letter and stores the documented parts; "
        "printing yields exactly those three characters again; the two type/letter maps are inverse to each other",
        "parser, printer and both letter maps are reduced to decision diagrams over an arbitrary string / an arbitrary "
        "code and compared with the documented mapping", minimum=37,
        assumptions=["printing is specified for bands 0..9 (RINEX band digits)"])
