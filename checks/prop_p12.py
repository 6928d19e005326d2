"""P12: opening, peeking, skipping and searching a RINEX navigation file."""
from navlib import *
from linelib import *
from ggsa.models import stream as stream_of, sconsume, sset, sget, FAIL, EOF  # noqa

LINES = dict(gps=8, glonass=4, sbas=4, galileo=8, beidou=8, qzss=8, irnss=8)
SEQ = ["", "A", "B", "M", "?", "AA", "AB", "BA", "BB", "AM", "BM", "A?", "AAA", "BAB", "ABA", "BBA", "AAB"]


def check():
    r = Report("P12")
    S = {cfg: r.session(cfg) for cfg in ("prod", "debug")}
    jobs = []
    for cfg in S:
        jobs += [(peek, cfg, None), (skip, cfg, None), (skip_end, cfg, None), (endless, cfg, None)]
        jobs += [(opens, cfg, k) for k in (1, 2, 3)]
        for q in (["gps", "glonass", "sbas"] if cfg == "prod" else ["gps"]):
            jobs += [(find, cfg, (q, x)) for x in SEQ]
        for q in (["gps", "glonass", "galileo", "beidou", "sbas", "irnss"] if cfg == "prod" else ["glonass"]):
            jobs += [(valid, cfg, (q, x)) for x in (["", "A", "B", "AA", "BA", "?"] + (["AAA"] if q in ("gps", "glonass") else []))]
    r.parallel(lambda fn, cfg, x: fn(r, S[cfg], cfg, x), jobs)
    return r.finish(
        "proof", "gated value-flow over LLVM IR with a symbolic input stream",
        "the searched, skipped or announced block is the one the file holds at the current position, statuses follow the documented contract, "
        "and a file is opened exactly when its header is valid",
        "stream operations are interpreted on every sequence of up to three blocks (requested system, other system, letters of no single system, end of file) with arbitrary contents; "
        "what a block read delivers is arbitrary (it is decided by P10)",
        minimum=400, assumptions=["sequences of more than three blocks behave like the enumerated ones (the search loops keep no state between blocks)"])


# ------------------------------------------------------------------ helpers
def session_stream(s, st, good=True):
    nav = s.obj("nav", rec="ngpt::NavigationRnx")
    return nav


def find_stream(log):
    for e in log:
        if e.get("stream"):
            return e["stream"]
    raise AnchorError("no stream operation")


def good(n):
    return bdd.AND(bdd.NOT(bdd.var(sym(n + ".0", "b"))), bdd.NOT(bdd.var(sym(n + ".1", "b"))))


def where(s, pat):
    f = s.fn(pat)
    return f, "%s:%d" % (f.file, f.line)


def letters(s, v):
    """(condition that v is the letter, system) for every system"""
    return [(cmp_eq0(sub(v, I(ord(LETTER[n])))), n) for n in LETTER]


# ------------------------------------------------------------------ peek
def peek(r, s, cfg, _):
    E = s.satsys()
    f, loc = where(s, r"ngpt::NavigationRnx::peak_satsys\(int&\)")
    st = State()
    nav = session_stream(s, st)
    stat = s.obj("stat", 4)
    seen = []
    s.ip.on_peek = lambda v: (seen.append(v), 1)[1]
    n0 = len(s.ip.log)
    rv, ns, ts = s.run(f, [nav, stat], st)
    s.ip.on_peek = None
    log = s.ip.log[n0:]
    no_exception(r, cfg + " peek", ts, log, loc)
    if not r.ob(cfg + " peek: looks at one character", len(seen) == 1 and ns is not None, "%d characters are looked at" % len(seen), loc):
        return
    r.ob(cfg + " peek: consumes nothing", not [e for e in log if e["kind"] in ("getline", "readother", "seekg") and e["pc"]], "the stream position changes", loc)
    n = find_stream(log)
    g = bdd.AND(good(n), ns.pc)
    v = seen[0]
    x = s.load(ns, stat, 0, 4, "i32")
    zero = bdd.AND(cmp_eq0(x), ns.pc)
    neg = bdd.AND(icmp("slt", x, I(0)).a[0], ns.pc)
    known = 0
    for c, q in letters(s, v):
        known = bdd.OR(known, c)
        cc = bdd.AND(g, c)
        r.same("%s peek: %s" % (cfg, q), under(rv, cc), I(E[q]), cc, "the system", loc)
    r.cond(cfg + " peek: zero for a known letter", bdd.AND(zero, g), bdd.AND(known, g), g, "status zero", loc)
    usable(r, s, cfg + " peek", ns, n, bdd.AND(neg, g), loc)
    r.cond(cfg + " peek: negative at the end of the file", bdd.AND(neg, g), bdd.AND(cmp_eq0(sub(v, I(-1))), g), g, "a negative status", loc)


# ------------------------------------------------------------------ skip
def skip(r, s, cfg, _):
    f, loc = where(s, r"ngpt::NavigationRnx::ignore_next_block\(\)")
    for q in list(LETTER) + ["other"]:
        st = State()
        nav = session_stream(s, st)

        def on_peek(v):
            if q != "other":
                return cmp_eq0(sub(v, I(ord(LETTER[q]))))
            c = bdd.NOT(cmp_eq0(sub(v, I(-1))))
            for d, _ in letters(s, v):
                c = bdd.AND(c, bdd.NOT(d))
            return c
        s.ip.on_peek = on_peek
        n0 = len(s.ip.log)
        rv, ns, ts = s.run(f, [nav], st)
        s.ip.on_peek = None
        log = s.ip.log[n0:]
        t = "%s skip %s" % (cfg, q)
        no_exception(r, t, ts, log, loc)
        if ns is None:
            r.ob(t + ": returns", False, "never returns", loc)
            continue
        g = bdd.AND(ns.pc, good(find_stream(log)))
        zero = bdd.AND(g, cmp_eq0(rv))
        pos = bdd.AND(g, icmp("sgt", rv, I(0)).a[0])
        if q in ("other", "mixed"):
            r.ob(t + ": rejected", bdd.implies(g, pos), "a block of unknown length is not reported as an error", loc)
            continue
        reads = [e["L"] for e in log if e["kind"] == "getline" and bdd.AND(e["pc"], zero)]
        r.ob(t + ": lines", len(reads) == LINES[q], "%d lines are skipped, the block has %d" % (len(reads), LINES[q]), loc)
        want = g
        for i, L in enumerate(reads):
            want = bdd.AND(want, bdd.NOT(bdd.var(mk("sym", "rdfail", "b", L, None))))
            if i + 1 < len(reads):
                want = bdd.AND(want, bdd.NOT(bdd.var(mk("sym", "rdeof", "b", L, None))))
        r.cond(t + ": zero exactly when all lines were read", zero, want, g, "status zero", loc)
        r.ob(t + ": anything else is an error", bdd.implies(bdd.AND(g, bdd.NOT(zero)), pos), "a failed skip is not a positive status", loc)


def skip_end(r, s, cfg, _):
    """at the end of the file: negative status, and the stream can be used again"""
    for nm, pat, extra in (("skip", r"ngpt::NavigationRnx::ignore_next_block\(\)", 0), ("read", r"ngpt::NavigationRnx::read_next_record\(ngpt::NavDataFrame&\)", 1)):
        f, loc = where(s, pat)
        st = State()
        nav = session_stream(s, st)
        s.ip.on_peek = lambda v: cmp_eq0(sub(v, I(-1)))
        n0 = len(s.ip.log)
        rv, ns, ts = s.run(f, [nav] + ([s.obj("fr", rec="ngpt::NavDataFrame")] if extra else []), st)
        s.ip.on_peek = None
        log = s.ip.log[n0:]
        n = find_stream(log)
        g = bdd.AND(good(n), ns.pc) if ns is not None else 0
        if r.ob("%s %s at the end: returns" % (cfg, nm), g != 0, "never returns", loc):
            usable(r, s, "%s %s at the end" % (cfg, nm), ns, n, g, loc)
            r.ob("%s %s at the end: negative status" % (cfg, nm), bdd.implies(g, icmp("slt", rv, I(0)).a[0]), "the end of the file is not a negative status", loc)


# ------------------------------------------------------------------ search
def blocks(s, cfg, q, seq, body):
    """run a search on the given sequence of blocks; -> (records, run result, log)"""
    E = s.satsys()
    other = "galileo" if q != "galileo" else "gps"
    let = {"A": LETTER[q], "B": LETTER[other], "M": "M", "?": "?"}
    st = State()
    nav = session_stream(s, st)
    fr = Frame(s, st, "frame")
    recs, seen = [], []

    def rd(ip, st_, a, ins, fr_, fn):
        k = len(recs)
        nm = "rec%d" % k
        s.obj(nm, rec="ngpt::NavDataFrame")
        c = ip.content(st_, nm).with_cell(fr.off_sys, 1, I(E[q]))
        st_.mem[nm] = c
        x = sym("status%d" % k, "i", -100, 100)
        recs.append((nm, x, st_.pc, ip.content(st_, nm)))
        ip.event("record", st_, fr_, ins, frame=a[0], k=k)
        n = stream_of(ip, st_, a[1])
        sconsume(ip, st_, n)
        z = cmp_eq0(x)
        sset(ip, st_, n, FAIL, bdd.AND(bdd.NOT(z), bdd.var(sym("recfail%d" % k, "b"))))
        sset(ip, st_, n, EOF, bdd.AND(bdd.NOT(z), bdd.var(sym("receof%d" % k, "b"))))
        st_.mem[a[0].a[0]] = c
        return x

    def on_peek(v):
        seen.append(v)
        k = len(seen) - 1
        if k < len(seq) and seq[k] == "?":
            c = bdd.NOT(cmp_eq0(sub(v, I(-1))))
            for d, _ in letters(s, v):
                c = bdd.AND(c, bdd.NOT(d))
            return c
        return cmp_eq0(sub(v, I(ord(let[seq[k]]) if k < len(seq) else -1)))
    s.ip.override(r"ngpt::NavDataFrame::set_from_rnx3\(.*\)", rd)
    s.ip.on_peek = on_peek
    s.ip.on_line = lambda L: bdd.NOT(bdd.OR(bdd.var(mk("sym", "rdfail", "b", L, None)), bdd.var(mk("sym", "rdeof", "b", L, None))))
    s.ip.UNROLL = 160
    s.ip.data_unroll = s.ip.force_unroll = 16
    n0 = len(s.ip.log)
    out = body(nav, fr, st)
    s.ip.on_peek = s.ip.on_line = None
    return recs, out, s.ip.log[n0:], seen, fr


def search_rules(r, s, t, seq, recs, out, log, seen, fr, cur, loc, accept, stop):
    """accept/stop: condition under which record k ends the search with success / with 'none'"""
    rv, ns, ts = out
    no_exception(r, t, ts, log, loc)
    if not r.ob(t + ": returns", ns is not None, "never returns", loc):
        return
    n = find_stream(log)
    g = bdd.AND(ns.pc, good(n))
    zero = bdd.AND(g, cmp_eq0(rv))
    neg = bdd.AND(g, icmp("slt", rv, I(0)).a[0])
    go, wz, wn = g, 0, 0
    k = 0
    picks = []
    na = seq.count("A")
    for c in seq:
        if c == "A":
            if k >= len(recs):
                if go == 0:
                    break
                r.ob(t + ": every block of the system is read", False, "block %d of the requested system is not read" % k, loc)
                return
            nm, x, pc, content = recs[k]
            bad = bdd.NOT(cmp_eq0(x))
            wn = bdd.OR(wn, bdd.AND(go, icmp("slt", x, I(0)).a[0]))
            live = bdd.AND(go, bdd.NOT(bad))
            sp = bdd.AND(live, stop(k))
            wn = bdd.OR(wn, sp)
            live = bdd.AND(live, bdd.NOT(sp))
            hit = bdd.AND(live, accept(k))
            wz = bdd.OR(wz, hit)
            picks.append((hit, nm))
            go = bdd.AND(live, bdd.NOT(hit))
            k += 1
        elif c in "M?":
            go = 0
    wn = bdd.OR(wn, go)
    r.cond(t + ": found exactly when the file holds such a message", zero, wz, g, "status zero", loc)
    r.cond(t + ": negative exactly when there is none", neg, wn, g, "a negative status", loc)
    for i, (hit, nm) in enumerate(picks):
        if hit == 0:
            continue
        p = ptr(nm, I(0))
        tmp = ns.copy()
        tmp.mem[nm] = recs[i][3]
        for j in (0, 13, 28):
            r.same("%s: field %d of message %d" % (t, j, i), under(s.load(ns, fr.p, fr.off_data + 8 * j, 8, "double"), hit),
                   s.load(tmp, p, fr.off_data + 8 * j, 8, "double"), hit, "the returned message", loc)
        r.same("%s: satellite of message %d" % (t, i), under(s.load(ns, fr.p, fr.off_prn, 4, "i32"), hit), s.load(tmp, p, fr.off_prn, 4, "i32"), hit, "the returned message", loc)
    # position at entry
    ops = [e for e in log if e["kind"] in ("tellg", "peek", "getline", "record", "seekg", "readother")]
    tell = [e for e in ops if e["kind"] == "tellg"]
    if r.ob(t + ": position is taken before anything is read", bool(ops) and bool(tell) and ops[0] is tell[0], "the position handed out is not the one at entry", loc):
        got = under(s.load(ns, cur, 0, 8, "i64"), g)
        r.same(t + ": position at entry", got, tell[0].get("ret"), g, "the position handed out", loc)
    # every skipped block is skipped completely
    if "M" not in seq and "?" not in seq:
        got = len([e for e in log if e["kind"] == "getline" and bdd.AND(e["pc"], g)])
        r.ob(t + ": skipped lines", got == 8 * seq.count("B"), "%d lines are skipped, the other blocks have %d" % (got, 8 * seq.count("B")), loc)
    usable(r, s, t, ns, n, neg, loc)


def usable(r, s, t, ns, n, neg, loc):
    """after the end of the file the stream can be positioned and read again"""
    if neg:
        x = ns.copy()
        x.pc = neg
        r.ob(t + ": the stream is usable after the end of the file", bdd.AND(neg, bdd.OR(sget(s.ip, x, n, FAIL), sget(s.ip, x, n, EOF))) == 0,
             "the end-of-file state is left set", loc)


def find(r, s, cfg, x):
    q, seq = x
    E = s.satsys()
    f, loc = where(s, r"ngpt::NavigationRnx::find_next\(.*\)")
    cur = s.obj("cur", 16)
    prn = sym("prn", "i", -1, 99)
    recs, out, log, seen, fr = blocks(s, cfg, q, seq, lambda nav, fr, st: s.run(f, [nav, cur, fr.p, I(E[q]), prn], st))

    def accept(k):
        st = State()
        st.mem[recs[k][0]] = recs[k][3]
        p = s.load(st, ptr(recs[k][0], I(0)), fr.off_prn, 4, "i32")
        return bdd.OR(cmp_eq0(sub(prn, I(-1))), cmp_eq0(sub(prn, p)))
    search_rules(r, s, "%s find %s in %s" % (cfg, q, seq or "nothing"), seq, recs, out, log, seen, fr, cur, loc, accept, lambda k: 0)


def valid(r, s, cfg, x):
    q, seq = x
    E = s.satsys()
    f, loc = where(s, r"int ngpt::NavigationRnx::find_next_valid<ngpt::milliseconds(, void)?>\(.*\)")
    cur = s.obj("cur", 16)
    prn = sym("prn", "i", -1, 99)
    t = s.obj("t", 16)
    recs, out, log, seen, fr = blocks(s, cfg, q, seq, lambda nav, fr, st: s.run(f, [nav, t, cur, fr.p, I(E[q]), prn], st))
    memo = {}

    def ev(k, d):
        if (k, d) not in memo:
            st = State()
            st.mem[recs[k][0]] = recs[k][3]
            st.mem["t"] = s.ip.content(st, "t")
            p = ptr(recs[k][0], I(0))
            if d == "prn":
                v = s.load(st, p, fr.off_prn, 4, "i32")
            elif d == "health":
                v = s.get(r"ngpt::NavDataFrame::sv_health\(\) const", [p], st)
            else:
                v = s.get(D % d, [p, t], st)
            memo[k, d] = v
        return memo[k, d]

    def match(k):
        return bdd.OR(cmp_eq0(sub(prn, I(-1))), cmp_eq0(sub(prn, ev(k, "prn"))))

    def stop(k):
        return bdd.AND(match(k), truth(ev(k, "d_nav_toofar")))

    def accept(k):
        if q in ("sbas", "irnss"):
            return 0
        w = truth(ev(k, "d_nav_inwindow_glo" if q == "glonass" else "d_nav_inwindow"))
        return bdd.AND(match(k), bdd.AND(cmp_eq0(ev(k, "health")), w))
    tag = "%s find valid %s in %s" % (cfg, q, seq or "nothing")
    if q in ("sbas", "irnss"):
        no_exception(r, tag, out[2], log, loc)
        if r.ob(tag + ": returns", out[1] is not None, "never returns", loc):
            g = bdd.AND(out[1].pc, good(find_stream(log)))
            r.ob(tag + ": nothing is valid for a system without known health", bdd.AND(g, cmp_eq0(out[0])) == 0, "a message of unknown health is returned as valid", loc)
        return
    search_rules(r, s, tag, seq, recs, out, log, seen, fr, cur, loc, accept, stop)


# ------------------------------------------------------------------ open
END = "END OF HEADER"


def is_end(L):
    c = 1
    for i, x in enumerate(END):
        c = bdd.AND(c, cmp_eq0(sub(mk("ch", L, I(60 + i)), I(ord(x)))))
    return c


def opens(r, s, cfg, k):
    """a header whose line k (from 0) ends it"""
    f, loc = where(s, r"ngpt::NavigationRnx::NavigationRnx\(char const\*\)")
    s.ip.charwise = s.ip.log_chars = True
    s.ip.UNROLL, s.ip.data_unroll, s.ip.force_unroll = 160, 12, 12
    lines = []

    def on_line(L):
        if L not in lines:
            lines.append(L)
        i = lines.index(L)
        c = bdd.NOT(bdd.OR(bdd.var(mk("sym", "rdfail", "b", L, None)), bdd.var(mk("sym", "rdeof", "b", L, None))))
        if i == 0:
            return c
        return bdd.AND(c, is_end(L) if i >= k else bdd.NOT(is_end(L)))
    s.ip.on_line = on_line
    st = State()
    nav = s.out("nav", rec="ngpt::NavigationRnx", st=st)
    name = s.cstr(st, "name", "brdc.20n")
    n0 = len(s.ip.log)
    rv, ns, ts = s.run(f, [nav, name], st)
    s.ip.on_line = None
    log = s.ip.log[n0:]
    s.ip.log_chars = False
    s.ip.force_unroll = 0
    t = "%s header of %d lines" % (cfg, k + 1)
    own_line(r, t, log)
    for e in log:
        if e["kind"] in ("oob", "uninit"):
            r.ob(t + ": only initialised memory is used", False, e.get("what") or "bad access", e["loc"])
    if not r.ob(t + ": can be opened", ns is not None and ns.pc != 0, "such files are never opened", loc):
        return
    L = lines[0]
    op = [e["stream"] for e in log if e.get("stream")][0]
    S = mk("S", ("line", L, I(0), None))
    known = 0
    for c, q in letters(s, mk("ch", L, I(40))):
        known = bdd.OR(known, c)
    want = bdd.AND(known, cmp_eq0(sub(mk("ch", L, I(20)), I(ord("N")))))
    conv = [e for e in log if e["kind"] == "conv"]
    r.ob(t + ": the version is a number at the start of the first line", any(S is x for e in conv for x in leaves(e["S"])), "the version is not read from column 0", loc)
    want = bdd.AND(want, bdd.NOT(cmp_eq0(mk("nconv", conv[0]["what"], S)))) if conv else want
    opened = bdd.var(sym("is_open:" + op, "b"))
    want = bdd.AND(want, opened)
    full = ns.pc if ts is None else bdd.OR(ns.pc, ts.pc)
    r.cond(t + ": opened exactly when valid", ns.pc, bdd.AND(want, full), 1, "acceptance", loc)
    r.ob(t + ": everything else throws", ts is not None and bdd.implies(bdd.AND(full, bdd.NOT(want)), ts.pc), "an invalid header does not throw", loc)
    rd = [i for i, e in enumerate(log) if e["kind"] == "getline" and bdd.AND(e["pc"], ns.pc)]
    r.ob(t + ": header lines read", len(rd) == k + 1, "%d lines are read, the header has %d" % (len(rd), k + 1), loc)
    # rewinding goes back to the end of the header
    g, gl = where(s, r"ngpt::NavigationRnx::rewind\(.*\)")
    tells = [(i, e) for i, e in enumerate(log) if e["kind"] == "tellg"]
    if not r.ob(t + ": the end of the header is noted", bool(tells) and tells[-1][0] > rd[-1], "the position noted is not the end of the header", loc):
        return
    n1 = len(s.ip.log)
    st2 = ns.copy()
    pos = [I(-1), I(0)]
    s.run(g, [nav] + pos[:len(g.args) - 1], st2)
    sk = [e for e in s.ip.log[n1:] if e["kind"] == "seekg"]
    if r.ob(t + ": rewind seeks", len([e for e in sk if bdd.AND(e["pc"], ns.pc)]) == 1, "rewind does not position the stream once", gl):
        e = [e for e in sk if bdd.AND(e["pc"], ns.pc)][0]
        to = e["to"]
        if to.op == "ptr":
            to = s.load(st2, to, 0, 8, "i64")
        elif to.op == "agg":
            to = to.a[0]
        r.same(t + ": rewind goes to the end of the header", under(to, ns.pc), tells[-1][1]["ret"], ns.pc, "the position", gl)


def endless(r, s, cfg, _):
    """a file that ends inside its header is rejected"""
    f, loc = where(s, r"ngpt::NavigationRnx::NavigationRnx\(char const\*\)")
    s.ip.charwise = True

    lines = []

    def on_line(L):
        lines.append(L)
        s.ip.exhausted = len(lines) > 1        # nothing follows the first line
        return 1
    s.ip.on_line = on_line
    st = State()
    nav = s.out("nav", rec="ngpt::NavigationRnx", st=st)
    name = s.cstr(st, "name", "brdc.20n")
    n = len(s.ip.log)
    rv, ns, ts = s.run(f, [nav, name], st)
    s.ip.on_line = None
    s.ip.exhausted = False
    ends = [e for e in s.ip.log[n:] if e["kind"] == "endless" and e["pc"] != 0]
    r.ob(cfg + " header without an end is read in bounded time", not ends and bool(lines), "a file that ends within its header is read forever", ends[0]["loc"] if ends else loc)
    r.ob(cfg + " header without an end is rejected", ns is None or ns.pc == 0, "a header that never ends is accepted", loc)
    r.ob(cfg + " header without an end throws", ts is not None and ts.pc != 0, "no exception", loc)


if __name__ == "__main__":
    sys.exit(check())
