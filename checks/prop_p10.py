"""P10: a RINEX-3 navigation record is stored from the columns the format assigns."""
from navlib import *
from ggsa.models import bad_date
from linelib import *

#         letter, lines, values in the last line
LAYOUT = {"gps": (8, 2), "qzss": (8, 2), "beidou": (8, 2), "galileo": (8, 1), "irnss": (8, 1), "glonass": (4, 4), "sbas": (4, 4)}
SPARE = {"galileo": 5, "beidou": 5}          # line (from 0) whose fourth value is spare
KM = (3, 4, 5, 7, 8, 9, 11, 12, 13)


def layout(n):
    """[(index of the value, line, column)]"""
    lines, last = LAYOUT[n]
    out = [(k, 0, 23 + 19 * k) for k in range(3)]
    for j in range(1, lines):
        for k in range(last if j == lines - 1 else 3 if SPARE.get(n) == j else 4):
            out.append((3 + 4 * (j - 1) + k, j, 4 + 19 * k))
    return out


def check():
    r = Report("P10")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = [(cfg, n) for cfg in S for n in list(LAYOUT) + ["mixed", "other", None]]
    r.parallel(lambda cfg, n: one(r, S[cfg], cfg, n) if n else for2cpp_rule(r, cfg), jobs)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with symbolic text lines",
        "every stored value is the number at its own line and column of the record (D exponents allowed), scaled to metres for GLONASS states; "
        "status zero exactly when all lines could be read and every number, the satellite number and the date are valid",
        "the record reader is interpreted on a stream of arbitrary lines; values are compared as (line, column) terms for each of the seven systems",
        minimum=400, assumptions=["strtod, strtol and ggdatetime's date parsing are primitives applied to (line, column)"])


def one(r, s, cfg, n):
    E = s.satsys()
    use_for2cpp(s)
    f = s.fn(r"ngpt::NavDataFrame::set_from_rnx3\(std::(ifstream|basic_ifstream<.*>)&\)")
    loc = "%s:%d" % (f.file, f.line)
    tag = "%s %s" % (cfg, n)
    st = State()
    fr = Frame(s, st, "frame")
    inp = s.obj("inp", 520)
    n0 = len(s.ip.log)
    first = []

    def starts_with(L):
        """restrict the analysis to records whose first letter is the system's"""
        first.append(L)
        if L is not first[0]:
            return 1
        is_ = lambda x: cmp_eq0(sub(mk("ch", L, I(0)), I(ord(LETTER[x]))))
        if n != "other":
            return is_(n)
        c = 1
        for x in LETTER:
            c = bdd.AND(c, bdd.NOT(is_(x)))
        return c
    s.ip.on_line = starts_with
    rv, ns, ts = s.run(f, [fr.p, inp], st)
    s.ip.on_line = None
    log = s.ip.log[n0:]
    if not first:
        r.error("no line is read from the stream")
        return
    good = bdd.NOT(bdd.OR(bdd.var(sym("stream:inp+0.0", "b")), bdd.var(sym("stream:inp+0.1", "b"))))
    ok = bdd.AND(ns.pc, cmp_eq0(rv)) if ns is not None else 0
    own_line(r, tag, log)
    no_exception(r, tag, ts, log, loc)
    if n in ("mixed", "other"):
        r.ob(tag + ": rejected", ok == 0, "a record of no known, definite system is accepted", loc)
        return
    if not r.ob(tag + ": can be read", ok != 0, "records of this system are never accepted", loc):
        return
    here = starts_with(first[0])
    reads = [e for e in log if e["kind"] == "getline" and bdd.AND(e["pc"], ok)]
    conv = {e["L"]: d2e(e["L"], e["off"]) for e in log if e["kind"] == "for2cpp"}
    record(r, s, tag, n, I(E[n]), fr, ns, ok, here, reads, conv, loc, good, cfg)


def text(L, col):
    return mk("S", ("line", L, I(col), None))


def record(r, s, tag, n, sysval, fr, ns, oks, here, reads, conv, loc, good, cfg):
    nl = LAYOUT[n][0]
    lines = [e["L"] for e in reads]
    if not r.ob(tag + ": number of lines", len(lines) == nl, "%d lines are read, the record has %d" % (len(lines), nl), loc):
        return
    L0 = lines[0]
    stt = ns.copy()
    stt.pc = oks
    r.same(tag + ": system", under(s.load(ns, fr.p, fr.off_sys, 1, "i8"), oks), sysval, oks, "the system", loc)
    prn = mk("strtol", text(L0, 1), I(10))
    r.same(tag + ": satellite number", under(s.load(ns, fr.p, fr.off_prn, 4, "i32"), oks), prn, oks, "the satellite number", loc)
    D = mk("dt", "strptime_ymd_hms", text(L0, 3))
    day, sec = fr.date(stt, "toc")
    for x, w, nm in ((day, mk("dmjd", D), "day"), (sec, mk("dsec", D), "seconds")):
        x = strip(x)
        r.same(tag + ": clock epoch " + nm, x, w, oks, "the clock epoch", loc)
    want = bdd.AND(here, good)
    rd = lambda L: bdd.var(mk("sym", "rdfail", "b", L, None))
    for L in lines:
        want = bdd.AND(want, bdd.NOT(rd(L)))
    for L in lines[:-1]:        # a file that ends with this line has no following one
        want = bdd.AND(want, bdd.NOT(bdd.var(mk("sym", "rdeof", "b", L, None))))
    want = bdd.AND(want, bdd.NOT(bad_date(text(L0, 3))))
    want = bdd.AND(want, bdd.NOT(cmp_eq0(prn)))
    want = bdd.AND(want, bdd.NOT(bdd.var(mk("sym", "erange", "b", text(L0, 1), "strtol"))))
    for i, j, col in layout(n):
        S = text(conv.get(lines[j], d2e(lines[j], I(0))), col)
        w = Ex(mk("strtod", S))
        if n == "glonass" and i in KM:
            w = w * 1000
        got = under(fr.d(ns, i).t, oks)
        r.same("%s: value %d" % (tag, i), got, w.t, oks, "field %d" % i, loc)
        want = bdd.AND(want, bdd.NOT(cmp_eq0(mk("nconv", "strtod", S))))
        want = bdd.AND(want, bdd.NOT(bdd.var(mk("sym", "erange", "b", S, "strtod"))))
    if cfg == "prod":
        r.cond(tag + ": status zero exactly for complete, readable records", oks, want, 1, "acceptance", loc)
    else:
        r.ob(tag + ": status zero only for complete, readable records", bdd.implies(oks, want), "an incomplete or unreadable record is accepted", loc)
    if n in ("gps", "glonass", "galileo", "beidou"):
        f = s.fn(r".*ngpt::NavDataFrame::toe2date<ngpt::seconds(, void)?>\(\) const")
        a = date_of(s, f, [fr.p], stt)
        b = fr.date(stt, "toe")
        for x, y, nm in zip(b, a, ("day", "seconds")):
            if y is None:
                r.ob(tag + ": reference epoch", False, "the reference epoch is not computed", loc)
                break
            r.same(tag + ": reference epoch %s is kept" % nm, under(x, oks), under(y, oks), oks, "the stored reference epoch", loc)


def strip(t):
    """the date text without later edits of the line behind it"""
    if t is not None and t.op in ("dmjd", "dsec") and t.a[0].op == "dt" and t.a[0].a[0].startswith("strptime"):
        S = t.a[0].a[1]
        if S.op == "S" and len(S.a) == 1 and S.a[0][0] == "line" and S.a[0][3] is None:
            L, off = S.a[0][1], S.a[0][2]
            while isinstance(L.a[0], Term) and L.a[0].op == "d2e" and L.a[0].a[1].op == "int" and off.op == "int" and L.a[0].a[1].a[0] >= off.a[0] + 20:
                L = L.a[0].a[0]
            return mk(t.op, mk("dt", t.a[0].a[0], mk("S", ("line", L, off, None))))
    return t


if __name__ == "__main__":
    sys.exit(check())
