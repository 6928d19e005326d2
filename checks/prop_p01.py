"""P01: satellite-system identifier letters are a bijection in both directions."""
from common import *


def check():
    r = Report("P01")
    s = r.session()
    E = s.satsys()
    # system -> letter
    v = sym("sys", "i", min(E.values()), max(E.values()))
    f = s.fn(r"ngpt::satsys_to_char\(ngpt::SATELLITE_SYSTEM\)")
    rv, ns, ts = s.run(f, [v])
    loc = "%s:%d" % (f.file, f.line)
    for n in SYS:
        c = cmp_eq0(sub(v, I(E[n])))
        r.same("satsys_to_char(%s)" % n, rv, I(ord(LETTER[n])), c, "letter of " + n, loc)
    r.cond("satsys_to_char never throws", ts.pc if ts else 0, 0, 1, "throwing condition", loc)
    # letter -> system, over all 256 characters
    ch = sym("c", "i", -128, 127)
    f = s.fn(r"ngpt::char_to_satsys\(char\)")
    loc = "%s:%d" % (f.file, f.line)
    rv, ns, ts = s.run(f, [ch])
    anyv = 0
    for n in SYS:
        c = cmp_eq0(sub(ch, I(ord(LETTER[n]))))
        anyv = bdd.OR(anyv, c)
        r.same("char_to_satsys('%s')" % LETTER[n], rv, I(E[n]), c, "system of '%s'" % LETTER[n], loc)
    r.cond("char_to_satsys: every other character is rejected", ns.pc if ns else 0, anyv, 1,
           "the condition under which a value is returned", loc)
    r.cond("char_to_satsys: rejection is an exception", ts.pc if ts else 0, bdd.NOT(anyv), 1, "throwing condition", loc)
    # the trait constant agrees
    for n in SYS:
        f = s.fn(r"char ggsa_driver::ident<\(ngpt::SATELLITE_SYSTEM\)%d>\(\)" % E[n])
        rv, ns, ts = s.run(f, [])
        r.same("traits<%s>::identifier" % n, rv, I(ord(LETTER[n])), 1, "identifier", "src/satsys.hpp")
    return r.finish(
        "proof", "gated value-flow over LLVM IR, every enumerator and every character",
        "for each system the printed letter is the documented one, reading it back yields the same system, "
        "and all other characters are rejected by an exception",
        "the conversion functions are reduced to decision diagrams over their whole argument domain and compared "
        "with the specified bijection", minimum=26)
