"""P11: an SP3 epoch is stored from the columns SP3-c/d assigns."""
from navlib import *
from linelib import *

EVENTS = ("bad_abscent_position", "bad_abscent_clock", "clock_event", "clock_prediction", "maneuver", "orbit_prediction")
#   P position record, o any line that is neither a record nor the end, F the EOF line
KINDS = ["", "P", "o", "oP", "PP", "PoP", "PPP", "F", "PF", "oPPF"]


def check():
    r = Report("P11")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = [(cfg, k, n) for cfg in S for k in KINDS for n in sorted({max(0, k.count("P") - 1), k.count("P"), k.count("P") + 1}) if cfg == "prod" or len(k) < 2]
    r.parallel(lambda cfg, k, n: one(r, S[cfg], cfg, k, n), jobs)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with symbolic text lines",
        "epoch, records, flags and count are exactly those of the epoch header and the position lines that follow it, up to the next epoch header or the EOF line; "
        "nothing is written behind the caller's elements and nothing is read from behind the end of a line",
        "the epoch reader is interpreted on streams of arbitrary lines, for every sequence of up to three position lines with other lines between them and every capacity around the number of records",
        minimum=300, assumptions=["strtod, strtol and ggdatetime's constructors are primitives applied to (line, column)",
                                  "sequences with more than three position records behave like the enumerated ones (the loop keeps no other state than the output position)"])


def one(r, s, cfg, kinds, cap):
    E = s.satsys()
    ip = s.ip
    ip.charwise = ip.log_chars = True
    ip.UNROLL, ip.data_unroll = 160, len(kinds) + 6
    f = s.fn(r"ngpt::Sp3c::get_next_epoch\(.*\)")
    loc = "%s:%d" % (f.file, f.line)
    tag = "%s *%s/%d" % (cfg, kinds, cap)
    st = State()
    sp = s.obj("sp3", rec="ngpt::Sp3c")
    tp, vp, np_ = s.obj("t", 16), s.obj("vec", 24), s.obj("n", 4)
    esz = s.rec_size("ngpt::Sp3EpochSvRecord")
    data = s.obj("data", esz * cap)
    st.mem["vec"] = ip.content(st, "vec").with_cell(0, 8, ptr("data", I(0))).with_cell(8, 8, ptr("data", I(esz * cap))).with_cell(16, 8, ptr("data", I(esz * cap)))
    lines, peeks = [], []
    ch = lambda L, k: mk("ch", L, I(k))
    is_ = lambda L, k, c: cmp_eq0(sub(ch(L, k), I(ord(c))))

    def on_line(L):
        if L not in lines:
            lines.append(L)
        i = lines.index(L)
        if i == 0:
            return 1
        if i > len(kinds):
            return 0
        return shape(L, kinds[i - 1], is_)

    def on_peek(v):
        peeks.append(v)
        star = cmp_eq0(sub(v, I(ord("*"))))
        return star if len(peeks) > len(kinds) else bdd.NOT(star)
    ip.on_line, ip.on_peek = on_line, on_peek
    n0 = len(ip.log)
    rv, ns, ts = s.run(f, [sp, tp, vp, np_], st)
    ip.on_line = ip.on_peek = None
    log = ip.log[n0:]
    ip.log_chars = False
    own_line(r, tag, log)
    for e in log:
        if e["kind"] in ("oob", "uninit", "nullderef"):
            r.ob("%s: no access outside the caller's elements or of indeterminate memory" % tag, False,
                 e.get("what") or "access outside an object", e["loc"])
    no_exception(r, tag, ts, log, loc)
    if not r.ob(tag + ": returns", ns is not None, "the reader never returns", loc):
        return
    fits = kinds.count("P") <= cap
    ends = kinds.endswith("F")
    zero = cmp_eq0(rv)
    neg = bdd.AND(ns.pc, icmp("slt", rv, I(0)).a[0])
    ok = bdd.AND(ns.pc, zero)
    if ends:
        r.ob(tag + ": the end of the file is not reported as an epoch that is followed by another", ok == 0, "status zero at the EOF line", loc)
        ok = neg
    else:
        r.ob(tag + ": end of file reported only at the EOF line", neg == 0, "a negative status without an EOF line", loc)
    if not fits:
        r.ob(tag + ": more records than elements are an error", ok == 0, "an epoch that does not fit is accepted", loc)
        return
    if not r.ob(tag + ": can be read", ok != 0 and len(lines) >= 1, "such epochs are never accepted", loc):
        return
    lines = [L for L in lines if any(e["kind"] == "getline" and e.get("L") is L and bdd.AND(e["pc"], ok) for e in log)]
    L0 = lines[0]
    want = stream_good(log, ns)
    if want is None:
        r.error("the input stream was not recognised")
        return
    no = lambda nm, *a: bdd.NOT(bdd.var(mk("sym", nm, "b", *a)))
    want = bdd.AND(want, bdd.AND(is_(L0, 0, "*"), is_(L0, 1, " ")))
    date = []
    for i, col in enumerate((3, 8, 11, 14, 17)):
        S = text(L0, col)
        v = mk("strtol", S, I(10))
        date.append(v)
        want = bdd.AND(want, no("erange", S, "strtol"))
        want = bdd.AND(want, bdd.NOT(cmp_eq0(v if i == 0 else mk("nconv", "strtol", S))))
    S = text(L0, 20)
    want = bdd.AND(want, bdd.AND(no("erange", S, "strtod"), bdd.NOT(cmp_eq0(mk("nconv", "strtod", S)))))
    t = ns.copy()
    t.pc = ok
    D = dterm(s, ns, tp, ok)
    if r.ob(tag + ": epoch", D is not None and D.op == "dt" and D.a[0].startswith("ctor<microseconds>(ngpt::year, ngpt::month, ngpt::day_of_month, ngpt::hours, ngpt::minutes"),
            "the epoch is not the date of the epoch header: %s" % (cut(show(D)) if D is not None else None), loc):
        for i, nm in enumerate(("year", "month", "day", "hour", "minute")):
            r.same("%s: epoch %s" % (tag, nm), under(D.a[1 + i], ok), date[i], ok, "the " + nm, loc)
        us = Ex(mk("strtod", S)) * 10**6
        r.same(tag + ": epoch seconds", under(D.a[6], ok), mk("fptosi", us.t), ok, "the seconds (in microseconds)", loc)
    k = 0
    fail = lambda L: bdd.var(mk("sym", "rdfail", "b", L, None))
    eof = lambda L: bdd.var(mk("sym", "rdeof", "b", L, None))
    if len(lines) != 1 + len(kinds):
        r.ob(tag + ": lines read", False, "%d lines are read, %d belong to the epoch" % (len(lines), 1 + len(kinds)), loc)
        return
    at_end = lambda v: cmp_eq0(sub(v, I(-1)))
    for i, L in enumerate(lines):
        want = bdd.AND(want, bdd.NOT(fail(L)))
        if not (ends and i == len(kinds)):
            want = bdd.AND(want, bdd.NOT(eof(L)))
    for v, L in zip(peeks[:len(kinds)], lines[1:]):
        want = bdd.AND(want, bdd.AND(bdd.NOT(at_end(v)), peeked_is(v, L)))
    # every line is what the scenario says it is
    for i, L in enumerate(lines[1:]):
        want = bdd.AND(want, shape(L, kinds[i], is_))
    for i, v in enumerate(peeks[:len(kinds) + (not ends)]):
        star = cmp_eq0(sub(v, I(ord("*"))))
        want = bdd.AND(want, star if i == len(kinds) else bdd.NOT(star))
    for L, kd in zip(lines[1:], kinds):
        if kd != "P":
            continue
        want = bdd.AND(want, record(r, s, ns, ok, tag, L, data, k * esz, E, loc, is_, no, k))
        k += 1
    r.same(tag + ": number of records", under(s.load(ns, np_, 0, 4, "i32"), ok), I(k), ok, "the number of records", loc)
    r.cond(tag + ": accepted exactly when every field is valid", ok, want, 1, "acceptance", loc)


def shape(L, k, is_):
    eof = bdd.AND(is_(L, 0, "E"), bdd.AND(is_(L, 1, "O"), is_(L, 2, "F")))
    P = is_(L, 0, "P")
    return {"P": P, "F": eof, "o": bdd.AND(bdd.NOT(P), bdd.NOT(eof))}[k]


def stream_good(log, ns):
    for e in log:
        if e["kind"] == "getline":
            b = e["stream"]
            return bdd.AND(bdd.NOT(bdd.var(sym("%s.0" % b, "b"))), bdd.NOT(bdd.var(sym("%s.1" % b, "b"))))
    return None


def dterm(s, ns, p, ok):
    m = under(s.load(ns, p, 0, 8, "i64"), ok)
    q = under(s.load(ns, p, 8, 8, "i64"), ok)
    if m.op == "dmjd" and q.op == "dsec" and m.a[0] is q.a[0]:
        return m.a[0]
    return mk("dt", "mjd+sec", m, q)


def text(L, col):
    return mk("S", ("line", L, I(col), None))


def record(r, s, ns, ok, tag, L, data, base, E, loc, is_, no, k):
    at = lambda a, *x: s.get(D % a, [ptr(data.a[0], I(base))] + list(x), State()).a[1].a[0] - base
    off = dict(s_=at("d_sp3_sys"), prn_=at("d_sp3_prn"), vals_=at("d_sp3_val", I(0)), flag_=at("d_sp3_flagr"))
    ld = lambda f, sz, ty, d=0: under(s.load(ns, data, base + off[f] + d, sz, ty), ok)
    t = "%s record %d" % (tag, k)
    known = 0
    sysv = ld("s_", 1, "i8")
    for n in LETTER:
        c = is_(L, 1, LETTER[n])
        known = bdd.OR(known, c)
        r.same("%s: system %s" % (t, n), under(sysv, bdd.AND(ok, c)), I(E[n]), bdd.AND(ok, c), "the system", loc)
    want = known
    S = text(L, 2)
    r.same(t + ": satellite number", ld("prn_", 4, "i32"), mk("strtol", S, I(10)), ok, "the satellite number", loc)
    want = bdd.AND(want, bdd.AND(no("erange", S, "strtol"), bdd.NOT(cmp_eq0(mk("nconv", "strtol", S)))))
    v = []
    for i in range(4):
        S = text(L, 4 + 14 * i)
        x = Ex(mk("strtod", S))
        if i < 3:
            x = x * 1000
        v.append(x.t)
        r.same("%s: value %d" % (t, i), ld("vals_", 8, "double", 8 * i), x.t, ok, "value %d" % i, loc)
        want = bdd.AND(want, bdd.AND(no("erange", S, "strtod"), bdd.NOT(cmp_eq0(mk("nconv", "strtod", S)))))
    ev = s.enum("Sp3Event")
    raw = [mk("strtod", text(L, 4 + 14 * i)) for i in range(4)]
    zero = 0
    for i in range(3):
        zero = bdd.OR(zero, fcmp("oeq", raw[i], F(0.0)).a[0])
    spec = dict(bad_abscent_position=zero, bad_abscent_clock=fcmp("oge", raw[3], F(999999.0)).a[0],
                clock_event=is_(L, 74, "E"), clock_prediction=is_(L, 75, "P"), maneuver=is_(L, 78, "M"), orbit_prediction=is_(L, 79, "P"))
    stt = ns.copy()
    stt.pc = ok
    for e in EVENTS:
        if e not in ev:
            raise AnchorError("SP3 event %s is gone" % e)
        g = truth(s.get(D % "d_sp3_flag", [ptr(data.a[0], I(base + off["flag_"])), I(ev[e])], stt))
        got = bdd.AND(g, ok)
        r.cond("%s: flag %s" % (t, e), got, bdd.AND(spec[e], ok), ok, "the flag", loc)
    return want


if __name__ == "__main__":
    sys.exit(check())
